module verifharness

go 1.23

require (
	github.com/nlpodyssey/spago v0.0.0
	pgregory.net/rapid v1.3.0
)

require github.com/google/flatbuffers v23.5.26+incompatible // indirect

replace github.com/nlpodyssey/spago => /repo
