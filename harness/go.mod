module verif

go 1.26

require (
	github.com/bifurcation/mint v0.0.0
	golang.org/x/crypto v0.0.0-20210513164829-c07d793c2f9a
	pgregory.net/rapid v1.3.0
)

require golang.org/x/net v0.0.0-20210614182718-04defd469f4e // indirect

replace github.com/bifurcation/mint => /repo
