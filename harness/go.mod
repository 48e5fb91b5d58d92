module spagoverif

go 1.24

require (
	github.com/google/flatbuffers v23.5.26+incompatible
	github.com/nlpodyssey/spago v0.0.0
)

replace github.com/nlpodyssey/spago => /repo
