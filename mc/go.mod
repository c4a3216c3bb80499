module verif.local/mc

go 1.24

require github.com/rossmerr/graphblas v0.0.0

require golang.org/x/net v0.19.0 // indirect

replace github.com/rossmerr/graphblas => /repo
