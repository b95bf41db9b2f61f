package main

import "encoding/binary"

// The decoder used by iota.go (hive.go serix) allocates the declared length of a tagged data payload before it looks at how many
// bytes there are (see known_findings.json, P02). Mutants which would make the harness allocate gigabytes are recognised by this
// walk over the wire format, so that they are only executed where that behaviour is the subject.

type walker struct {
	b  []byte
	ok bool
}

func (w *walker) skip(n int) {
	if n < 0 || n > len(w.b) {
		w.ok, w.b = false, nil

		return
	}
	w.b = w.b[n:]
}

func (w *walker) u8() int {
	if len(w.b) < 1 {
		w.ok = false

		return 0
	}
	v := w.b[0]
	w.b = w.b[1:]

	return int(v)
}

func (w *walker) u16() int {
	if len(w.b) < 2 {
		w.ok, w.b = false, nil

		return 0
	}
	v := binary.LittleEndian.Uint16(w.b)
	w.b = w.b[2:]

	return int(v)
}

func (w *walker) u32() int {
	if len(w.b) < 4 {
		w.ok, w.b = false, nil

		return 0
	}
	v := binary.LittleEndian.Uint32(w.b)
	w.b = w.b[4:]

	return int(v)
}

func (w *walker) taggedData() int {
	w.skip(w.u8())
	n := w.u32()
	if !w.ok {
		return 0
	}

	return n
}

func (w *walker) payload() int {
	switch w.u8() {
	case 0:
		if w.ok {
			return w.taggedData()
		}
	case 1:
		return w.transaction()
	}

	return 0
}

func (w *walker) transaction() int {
	w.skip(8 + 4)
	for n := w.u16(); n > 0 && w.ok; n-- {
		switch w.u8() {
		case 0:
			w.skip(36)
		case 1:
			w.skip(32)
		case 2:
			w.skip(2)
		default:
			return 0
		}
	}
	for n := w.u16(); n > 0 && w.ok; n-- {
		w.skip(1 + 36 + 2)
	}
	if n := w.u16(); w.ok {
		w.skip(n * 40)
	}
	w.skip(w.u8())
	if w.u32() == 0 || !w.ok {
		return 0
	}

	return w.payload()
}

// declaredDataLen returns the length of tagged data which the decoder of the kind will be told to read, 0 if it never gets there.
func declaredDataLen(kindName string, b []byte) int {
	w := &walker{b: b, ok: true}
	switch kindName {
	case "tagged-data":
		if w.u8() != 0 {
			// the decoder goes on at the start after a mismatch of the type
			return (&walker{b: b, ok: true}).u32()
		}

		return w.taggedData()
	case "transaction", "transaction-valid":
		return w.transaction()
	case "signed-transaction", "signed-transaction-valid":
		w.skip(1)

		return w.transaction()
	case "block", "block-valid":
		w.skip(1 + 8 + 8 + 36 + 4 + 32)
		if w.u8() != 0 { // basic block body
			return 0
		}
		for i := 0; i < 3; i++ {
			w.skip(w.u8() * 36)
		}
		if w.u32() == 0 || !w.ok {
			return 0
		}

		return w.payload()
	}

	return 0
}
