module verif/harness

go 1.17

require (
	github.com/cubeflix/nn v0.0.0
	golang.org/x/exp v0.0.0-20220915105810-2d61f44442a3
)

replace github.com/cubeflix/nn => /repo
