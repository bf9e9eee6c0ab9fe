package spec

import (
	"strings"

	"verif/mc/xsd"
)

// Finding classifies a disagreement as an instance of a recorded genuine
// defect; the result counts only if known_findings.json lists it.
func Finding(prop string, d Diff, s *xsd.Schema) string {
	if d.Lang == "TypeScript" && d.Exp == "Uint8Array[]" && d.Got == "Uint8Array" && (d.End.Builtin == "hexBinary" || d.End.Builtin == "base64Binary") {
		return "ts-uint8array"
	}
	return ""
}

// langTypes are the type names a reference to a component of exactly that name
// is taken for.
var langTypes = map[string]map[string]bool{
	"Go":         words("byte bool complex64 complex128 float32 float64 int int8 int16 int32 int64 interface string uint uint8 uint16 uint32 uint64"),
	"TypeScript": words("any boolean number string void null undefined Uint8Array"),
	"C":          words("bool char float double int short long void enum"),
	"Java":       words("Boolean Byte Character Float Integer Short String QName Long"),
	"Rust":       words("i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize f32 f64 bool char String"),
}

func words(s string) map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(s) {
		m[w] = true
	}
	return m
}

// IsLangType tells whether a name is one a reference is taken for a type of the
// language by (the recorded defect type-name).
func IsLangType(lang, name string) bool { return langTypes[lang][name] }

// NameFinding classifies a disagreement caused by the name of a component.
func NameFinding(class, lang, name string) string {
	if langTypes[lang][name] && (class == "reference" || lang == "Go" && name == "interface" && class == "source") {
		return "type-name-" + lang
	}
	return ""
}
