package sess

import (
	"math/rand"
	"strings"

	"verif.local/harness/model"
)

// Key is one key press: the bytes a terminal sends and the key the library documents for them.
type Key struct {
	Bytes string
	R     rune
}

// encodings lists every byte sequence that stands for a key.
var encodings = map[rune][]string{
	model.KeyLineStart: {"\x01", "\x1b[H", "\x1bOH"},
	model.KeyLineEnd:   {"\x05", "\x1b[F", "\x1bOF"},
	model.KeyBackward:  {"\x02", "\x1b[D", "\x1bOD"},
	model.KeyForward:   {"\x06", "\x1b[C", "\x1bOC"},
	model.KeyPrev:      {"\x10", "\x1b[A", "\x1bOA"},
	model.KeyNext:      {"\x0e", "\x1b[B", "\x1bOB"},
	model.KeyDelete:    {"\x04", "\x1b[3~"},
	model.KeyMetaB:     {"\x1bb"},
	model.KeyMetaF:     {"\x1bf"},
	model.KeyMetaD:     {"\x1bd"},
	model.KeyMetaBS:    {"\x1b\x7f"},
	model.KeyMetaT:     {"\x1b\x14"},
}

// Encode picks one of the byte sequences of a key. Vim mode takes Esc for itself, so only the
// control characters remain.
func Encode(r rune, rnd *rand.Rand, vim bool) Key {
	if e, ok := encodings[r]; ok && !vim {
		return Key{e[rnd.Intn(len(e))], r}
	}
	if e, ok := encodings[r]; ok {
		return Key{e[0], r}
	}
	return Key{string(r), r}
}

func Bytes(ks []Key) string {
	var sb strings.Builder
	for _, k := range ks {
		sb.WriteString(k.Bytes)
	}
	return sb.String()
}
