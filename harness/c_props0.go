package main

import (
	"fmt"
	"math"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	fb "github.com/google/flatbuffers/go"
)

// readProp reads one value of a type through the matching method.
func readProp(pr *flatgeobuf.PropReader, typ uint8) (v any, err error) {
	switch typ {
	case ctByte:
		return pr.ReadByte()
	case ctUByte:
		return pr.ReadUByte()
	case ctBool:
		return pr.ReadBool()
	case ctShort:
		return pr.ReadShort()
	case ctUShort:
		return pr.ReadUShort()
	case ctInt:
		return pr.ReadInt()
	case ctUInt:
		return pr.ReadUInt()
	case ctLong:
		return pr.ReadLong()
	case ctULong:
		return pr.ReadULong()
	case ctFloat:
		return pr.ReadFloat()
	case ctDouble:
		return pr.ReadDouble()
	case ctString, ctDateTime:
		return pr.ReadString()
	case ctJson, ctBinary:
		return pr.ReadBinary()
	}
	return nil, fmt.Errorf("type %d", typ)
}

func f32(u uint64) float32 { return math.Float32frombits(uint32(u)) }
func f64(u uint64) float64 { return math.Float64frombits(u) }

func flatUOffset(p uint32) fb.UOffsetT { return fb.UOffsetT(p) }
