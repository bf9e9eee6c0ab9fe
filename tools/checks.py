NA={}
N=" Exhaustive within the stated bounds only; trusts the reference model (mc/spec) and the readers (mc/read)."
for i in ["C01","C02","C03","C04","C05","C06","C07","C09","C14","C15","C17","C18","C20"]:
    c(i,MODEL,"model_checking","Every schema of the bounded spaces holds."+N)
CLI="explicit enumeration of a bounded space of file trees and argument vectors; every state runs the real command, built from /repo, as an unprivileged user in a scratch directory, whose whole content before and after, the exit status and the printed text are compared with a model"
for i in ["C10","C16"]:
    c(i,CLI,"model_checking","Every run of the bounded spaces behaves as the model says. Exhaustive within the stated bounds only; the content of outputs is compared with what the library generates for the same file on its own.")
c("C19","explicit enumeration of all histories of conversions up to a bounded length; every history is executed by the real code in a process of its own, and every step is compared with the same conversion as the first of a process","model_checking","Every history of the bounded spaces holds. Exhaustive within the stated bounds only: the fixed set of inputs, languages and lengths.")
ENV=" The real code is built with its map iterations, clocks, random numbers, file operations, locks and accesses to changing package variables replaced by controlled stand-ins (mc/rt), by a type-aware rewriting of the current source (mc/cmd/instr, go build -overlay)."
c("C11","explicit enumeration of a bounded schema space times all orders of every map iteration and varied clocks, random numbers, process identity and place; every state runs the real code and the bytes of all outputs are compared","model_checking","Every conversion of the bounded spaces gives the same bytes."+ENV)
c("C12","explicit enumeration of all single faults at all file operations, all short reads, all truncations and all single corruptions of a bounded set of inputs; every state runs the real code, and success with outputs other than those of the undisturbed conversion is a violation","fault_enumeration","Every fault of the bounded spaces is reported."+ENV)
c("C13","stateless exploration of all schedules up to a preemption bound of two or three real parsers under a controlled scheduler, and of first uses in fresh processes under the race detector; the outputs are compared with those of each parser alone","model_checking","Every schedule of the bounded spaces gives the outputs of the parsers alone, with no data race and no deadlock."+ENV)
c("C08","explicit enumeration of a bounded schema space times all instance documents within a bound on deviating choices; the real generated Go of every schema is compiled, and every document is decoded and encoded by it and compared with the original","model_checking","Every document of the bounded spaces keeps all its parts, but for the recorded findings (lists, unions, groups, zero optional attributes, xs:time, xs:QName). Trusts the instance enumeration (mc/cmd/mc/roundtrip.go), encoding/xml and the Go compiler.")
c("C21","explicit enumeration of a bounded schema space; every state is parsed by the real code with Extract set, and the proto tree it leaves, and the scratch directory, are compared with an independent reference model","model_checking","Every schema of the bounded spaces holds."+N)
