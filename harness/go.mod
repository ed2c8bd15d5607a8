module verifharness

go 1.23

require (
	github.com/gogama/flatgeobuf v0.0.0
	github.com/google/flatbuffers v23.5.26+incompatible
)

replace github.com/gogama/flatgeobuf => /repo
