module verif/harness

go 1.19

require github.com/rossmerr/graphblas v0.0.0

replace github.com/rossmerr/graphblas => /repo
