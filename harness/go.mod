module verif

go 1.24

require (
	github.com/hpinc/go3mf v0.0.0
	github.com/qmuntal/opc v0.7.10
)

replace github.com/hpinc/go3mf => /repo
