module verif/mc

go 1.22

require (
	github.com/xuri/xgen v0.0.0
	golang.org/x/net v0.7.0 // indirect
	golang.org/x/text v0.7.0 // indirect
)

replace github.com/xuri/xgen => /repo
