package main

import (
	"go/types"
	"math/bits"
	"unicode"
	"unicode/utf8"
)

var runePreds = map[string]func(rune) bool{
	"unicode.IsLower": unicode.IsLower, "unicode.IsUpper": unicode.IsUpper,
	"unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit,
	"unicode.IsNumber": unicode.IsNumber, "unicode.IsSpace": unicode.IsSpace,
	"unicode.IsPunct": unicode.IsPunct, "unicode.IsControl": unicode.IsControl,
	"unicode.IsMark": unicode.IsMark, "unicode.IsSymbol": unicode.IsSymbol,
	"unicode.IsPrint": unicode.IsPrint, "unicode.IsGraphic": unicode.IsGraphic,
	"unicode/utf8.ValidRune": utf8.ValidRune,
}

var runeMaps = map[string]func(rune) rune{
	"unicode.ToLower": unicode.ToLower, "unicode.ToUpper": unicode.ToUpper,
}

// foldable functions are evaluated on known arguments.
var foldable = map[string]bool{"unicode/utf8.RuneLen": true,
	"math/bits.Len": true, "math/bits.Len32": true, "math/bits.Len64": true, "math/bits.Len16": true, "math/bits.Len8": true,
	"math/bits.OnesCount": true, "math/bits.OnesCount32": true, "math/bits.OnesCount64": true,
	"math/bits.TrailingZeros64": true, "math/bits.TrailingZeros": true}

func init() {
	for n := range runePreds {
		foldable[n] = true
	}
	for n := range runeMaps {
		foldable[n] = true
	}
}

// foldPure evaluates a pure library function on known arguments.
func (ts *Terms) foldPure(name string, typ types.Type, args []*Term) *Term {
	if len(args) != 1 {
		return nil
	}
	v, ok := args[0].isInt()
	if !ok {
		return nil
	}
	if f := runePreds[name]; f != nil && int64(rune(v)) == v {
		return ts.Bool(f(rune(v)))
	}
	if f := runeMaps[name]; f != nil && int64(rune(v)) == v {
		return ts.Int(int64(f(rune(v))))
	}
	if name == "unicode/utf8.RuneLen" && int64(rune(v)) == v {
		return ts.Int(int64(utf8.RuneLen(rune(v))))
	}
	if v < 0 {
		return nil
	}
	u := uint64(v)
	switch name {
	case "math/bits.Len", "math/bits.Len32", "math/bits.Len64", "math/bits.Len16", "math/bits.Len8":
		return ts.Int(int64(bits.Len64(u)))
	case "math/bits.OnesCount", "math/bits.OnesCount32", "math/bits.OnesCount64":
		return ts.Int(int64(bits.OnesCount64(u)))
	case "math/bits.TrailingZeros64", "math/bits.TrailingZeros":
		return ts.Int(int64(bits.TrailingZeros64(u)))
	}
	return nil
}
