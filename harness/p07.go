package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	"github.com/iotaledger/hive.go/runtime/options"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/bech32"
	"github.com/iotaledger/iota.go/v4/hexutil"
)

// ---- independent BIP-173 implementation ----

const b32chars = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

func refPolymod(vals []int) uint32 {
	c := uint32(1)
	for _, v := range vals {
		top := c >> 25
		c = (c&0x1ffffff)<<5 ^ uint32(v)
		for i, g := range [5]uint32{0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3} {
			if top>>i&1 == 1 {
				c ^= g
			}
		}
	}

	return c
}

func refHrpVals(hrp string) (out []int) {
	for _, c := range []byte(hrp) {
		out = append(out, int(c>>5))
	}
	out = append(out, 0)
	for _, c := range []byte(hrp) {
		out = append(out, int(c&31))
	}

	return out
}

func to5(b []byte) (out []int) {
	bits := ""
	for _, c := range b {
		bits += fmt.Sprintf("%08b", c)
	}
	for len(bits)%5 != 0 {
		bits += "0"
	}
	for i := 0; i < len(bits); i += 5 {
		v, _ := strconv.ParseUint(bits[i:i+5], 2, 8)
		out = append(out, int(v))
	}

	return out
}

// refBech32Raw appends the checksum to arbitrary 5-bit groups.
func refBech32Raw(hrp string, vals []int) string {
	low := strings.ToLower(hrp)
	pm := refPolymod(append(append(refHrpVals(low), vals...), 0, 0, 0, 0, 0, 0)) ^ 1
	s := low + "1"
	for _, v := range vals {
		s += string(b32chars[v])
	}
	for i := 0; i < 6; i++ {
		s += string(b32chars[pm>>(5*(5-i))&31])
	}
	if hrp != low {
		s = strings.ToUpper(s)
	}

	return s
}

func refHrpOK(hrp string) bool {
	if len(hrp) == 0 {
		return false
	}
	up, lo := false, false
	for _, c := range []byte(hrp) {
		if c < 33 || c > 126 {
			return false
		}
		up = up || 'A' <= c && c <= 'Z'
		lo = lo || 'a' <= c && c <= 'z'
	}

	return !(up && lo)
}

func refBech32Encode(hrp string, b []byte) (string, bool) {
	if !refHrpOK(hrp) {
		return "", false
	}
	s := refBech32Raw(hrp, to5(b))

	return s, len(s) <= 90
}

func refBech32Decode(s string) (string, []byte, bool) {
	if len(s) > 90 {
		return "", nil, false
	}
	up, lo := false, false
	for _, c := range []byte(s) {
		up = up || 'A' <= c && c <= 'Z'
		lo = lo || 'a' <= c && c <= 'z'
	}
	if up && lo {
		return "", nil, false
	}
	pos := strings.LastIndexByte(s, '1')
	if pos < 1 || len(s)-pos-1 < 6 || !refHrpOK(s[:pos]) {
		return "", nil, false
	}
	low := []byte(s)
	for i, c := range low {
		if 'A' <= c && c <= 'Z' {
			low[i] = c + 32
		}
	}
	hrp := string(low[:pos])
	var vals []int
	for _, c := range low[pos+1:] {
		v := strings.IndexByte(b32chars, c)
		if v < 0 {
			return "", nil, false
		}
		vals = append(vals, v)
	}
	if refPolymod(append(refHrpVals(hrp), vals...)) != 1 {
		return "", nil, false
	}
	vals = vals[:len(vals)-6]
	bits := ""
	for _, v := range vals {
		bits += fmt.Sprintf("%05b", v)
	}
	n := len(bits) / 8
	if len(bits)-8*n > 4 || strings.Contains(bits[8*n:], "1") {
		return "", nil, false
	}
	out := []byte{}
	for i := 0; i < n; i++ {
		v, _ := strconv.ParseUint(bits[8*i:8*i+8], 2, 16)
		out = append(out, byte(v))
	}

	return hrp, out, true
}

func genHrp(r *rand.Rand) string {
	switch r.Intn(4) {
	case 0:
		return []string{"iota", "smr", "rms", "tst", "IOTA", "1", "a1b", "11", "~", "!"}[r.Intn(10)]
	default:
		n := 1 + r.Intn(6)
		if coin(r, 5) {
			n = r.Intn(90)
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(33 + r.Intn(94))
		}
		s := strings.ToLower(string(b))
		if coin(r, 5) {
			s = strings.ToUpper(s)
		}
		if coin(r, 8) {
			s = mutateText(r, s)
		}

		return s
	}
}

func p07Bech32(t *Case) {
	hrp := genHrp(t.R)
	data := rbytes(t.R, rlen(t.R, 0, 50))
	want, ok := refBech32Encode(hrp, data)
	got, err := bech32.Encode(hrp, data)
	t.Note("hrp %q data %x", hrp, data)
	t.Check((err == nil) == ok && (!ok || got == want), "bech32-encode", "encoded %q (%v), want %q (%v)", got, err, want, ok)
	t.Sample(map[string]any{"hrp": hrp, "data": fmt.Sprintf("%x", data), "text": want, "valid": ok})
	t.Eval(fmt.Sprintf("encode:%d:%d:%v", len(hrp), len(data), ok))
	for i := 0; i < 8; i++ {
		s := want
		what := "itself"
		switch t.R.Intn(9) {
		case 0: // one to four wrong characters: always detected
			b := []byte(strings.ToLower(s))
			n := 1 + t.R.Intn(4)
			for j := 0; j < n && len(b) > 0; j++ {
				b[t.R.Intn(len(b))] = b32chars[t.R.Intn(32)]
			}
			s, what = string(b), "substitution"
		case 1:
			s, what = strings.ToUpper(s), "upper case"
		case 2:
			b := []byte(s)
			if len(b) > 0 {
				k := t.R.Intn(len(b))
				b[k] ^= 0x20
			}
			s, what = string(b), "mixed case"
		case 3:
			s, what = mutateText(t.R, s), "mutated"
		case 4: // other padding or incomplete groups, with a correct checksum
			vals := to5(data)
			if len(vals) > 0 && coin(t.R, 2) {
				vals[len(vals)-1] ^= 1 << t.R.Intn(5)
			} else {
				for k := t.R.Intn(3); k >= 0; k-- {
					vals = append(vals, t.R.Intn(32)*t.R.Intn(2))
				}
			}
			s, what = refBech32Raw(hrp, vals), "padding"
		case 5: // swapped neighbours
			b := []byte(s)
			if len(b) > 1 {
				k := t.R.Intn(len(b) - 1)
				b[k], b[k+1] = b[k+1], b[k]
			}
			s, what = string(b), "swapped"
		case 6: // too long but with a correct checksum
			s, what = refBech32Raw(hrp, to5(rbytes(t.R, 48+t.R.Intn(8)))), "long"
		case 7:
			if len(s) > 8 {
				s = s[len(s)-6-t.R.Intn(3):]
			}
			what = "cut"
		}
		wh, wd, wok := refBech32Decode(s)
		gh, gd, err := bech32.Decode(s)
		t.Check((err == nil) == wok && (!wok || gh == wh && bytes.Equal(gd, wd)), "bech32-decode:"+what, "decoding %q gives %q %x (%v), want %q %x (%v)", s, gh, gd, err, wh, wd, wok)
		t.Eval(fmt.Sprintf("decode:%s:%v:%d", what, wok, len(wd)))
	}
}

// refParseAddr parses the identifier form of an address (multi addresses by reference) and returns its canonical form.
func refParseAddr(b []byte) bool {
	direct := func(b []byte) bool { return len(b) == 33 && (b[0] == 0 || b[0] == 8 || b[0] == 16 || b[0] == 24) }
	switch {
	case len(b) == 0:
		return false
	case b[0] == 32 || b[0] == 40:
		return len(b) == 33
	case b[0] == 48:
		if len(b) < 35 || !(direct(b[1:34]) || b[1] == 40) {
			return false
		}
		caps := b[35:]

		return int(b[34]) == len(caps) && refCapsOK(caps, 2) == ""
	}

	return direct(b)
}

func p07Address(t *Case) {
	a := genAnyAddr(t.R)
	id := refAddrID(a)
	hrp := []iotago.NetworkPrefix{iotago.PrefixMainnet, iotago.PrefixShimmer, iotago.PrefixTestnet, "tst", "x"}[t.R.Intn(5)]
	t.Note("address %x", refAddr(a))
	want, _ := refBech32Encode(string(hrp), id)
	got := a.Bech32(hrp)
	t.Check(got == want, "address-bech32", "%q, want %q", got, want)
	parse := func(s string, what string, data []byte, ok bool) {
		h, p, err := iotago.ParseBech32(s)
		if !t.Check((err == nil) == ok, "address-parse:"+what, "parsing %q (%x): %v, want accepted: %v", s, data, err, ok) || !ok {
			return
		}
		t.Check(string(h) == strings.ToLower(string(hrp)) && bytes.Equal(p.ID(), data), "address-parse:"+what, "parsing %q gives %s %x, want %x", s, h, p.ID(), data)
		t.Check(p.Bech32(h) == strings.ToLower(s), "address-parse:"+what, "re-encoding gives %q, want %q", p.Bech32(h), s)
		t.Check(p.Key() == string(data), "address-parse:"+what, "key %x", p.Key())
		if byte(p.Type()) != data[0] {
			t.Violate("address-parse-type:"+what, "type %d, want %d", p.Type(), data[0])
		}
	}
	parse(want, "valid", id, true)
	parse(strings.ToUpper(want), "upper", id, true)
	t.Eval(fmt.Sprintf("address:%T:%d", a, len(id)))
	// the parsed address equals the original (or refers to it)
	_, p, err := iotago.ParseBech32(want)
	if err == nil {
		_, isMulti := a.(*iotago.MultiAddress)
		ra, isR := a.(*iotago.RestrictedAddress)
		if isR {
			_, isMulti = ra.Address.(*iotago.MultiAddress)
		}
		if !isMulti {
			t.Check(p.Equal(a) && a.Equal(p) && bytes.Equal(refAddr(p), refAddr(a)), "address-parse-equal", "the parsed address is another one")
		} else {
			if isR {
				pr, is := p.(*iotago.RestrictedAddress)
				if !t.Check(is, "address-parse-equal", "%T", p) {
					return
				}
				t.Check(bytes.Equal(pr.AllowedCapabilities, ra.AllowedCapabilities), "address-parse-equal", "capabilities %x, want %x", pr.AllowedCapabilities, ra.AllowedCapabilities)
				p = pr.Address
			}
			_, is := p.(*iotago.MultiAddressReference)
			t.Check(is, "address-parse-equal", "%T", p)
		}
	}
	for i := 0; i < 6; i++ {
		d := append([]byte{}, id...)
		switch t.R.Intn(5) {
		case 0:
			d[0] = byte(t.R.Intn(256))
		case 1:
			d = append(d, rbytes(t.R, 1+t.R.Intn(2))...)
		case 2:
			d = d[:t.R.Intn(len(d))]
		case 3:
			d = append([]byte{48}, d...)
			caps := rbytes(t.R, t.R.Intn(4))
			d = append(append(d, byte(len(caps))), caps...)
		case 4:
			d = mutateBytes(t.R, d)
		}
		if len(d) > 44 {
			continue
		}
		s, _ := refBech32Encode(string(hrp), d)
		if len(s) > 90 {
			continue
		}
		ok := refParseAddr(d)
		parse(s, "crafted", d, ok)
		t.Eval(fmt.Sprintf("crafted:%v:%d", ok, len(d)))
	}
	// readers consume exactly the address
	raw := refAddr(a)
	rd := bytes.NewReader(append(append([]byte{}, raw...), 1, 2, 3))
	x, err := iotago.AddressFromReader(rd)
	t.Check(err == nil && rd.Len() == 3 && bytes.Equal(refAddr(x), raw), "address-reader", "%v, %d bytes left", err, rd.Len())
	y, n, err := iotago.AddressFromBytes(append(append([]byte{}, raw...), 1, 2, 3))
	t.Check(err == nil && n == len(raw) && bytes.Equal(refAddr(y), raw), "address-from-bytes", "%v, %d bytes consumed", err, n)
	if ia, is := a.(*iotago.ImplicitAccountCreationAddress); is {
		h, err := iotago.ParseImplicitAccountCreationAddressFromHexString(fmt.Sprintf("0x%x", ia[:]))
		t.Check(err == nil && *h == *ia, "implicit-hex", "%v", err)
	}
}

// ---- identifiers ----

type id36 interface {
	~[36]byte
	ToHex() string
	String() string
	Empty() bool
	Bytes() ([]byte, error)
	MarshalText() ([]byte, error)
	RegisterAlias(string)
	Alias() string
	UnregisterAlias()
}

// idOps adapts an identifier type to byte slices.
type idOps struct {
	name     string
	n        int
	fromHex  func(string) ([]byte, error)
	mustHex  func(string) []byte
	from     func([]byte) ([]byte, int, error)
	valid    func([]byte) error
	toHex    func([]byte) string
	bytes    func([]byte) []byte
	marshal  func([]byte) (string, error)
	unmarsh  func(string) ([]byte, error)
	empty    func([]byte) bool
	alias    func(b []byte, alias string) (during, after string, str string)
	compare  func(a, b []byte) int
	sort     func([][]byte) [][]byte
	dedup    func([][]byte) [][]byte
	hexes    func([][]byte) []string
	fromHexs func([]string) ([][]byte, error)
}

type anyID interface {
	ToHex() string
	String() string
	Empty() bool
	Bytes() ([]byte, error)
	MarshalText() ([]byte, error)
	RegisterAlias(string)
	Alias() string
	UnregisterAlias()
}

type textPtr[T any] interface {
	*T
	UnmarshalText([]byte) error
}

func mkID[T anyID, P textPtr[T]](name string, n int, conv func([]byte) T, fromHex func(string) (T, error), must func(string) T, from func([]byte) (T, int, error), valid func([]byte) error) *idOps {
	back := func(x T) []byte { b, _ := x.Bytes(); return append([]byte{}, b...) }

	return &idOps{
		name: name, n: n,
		fromHex: func(s string) ([]byte, error) { x, err := fromHex(s); return back(x), err },
		mustHex: func(s string) []byte { return back(must(s)) },
		from:    func(b []byte) ([]byte, int, error) { x, n, err := from(b); return back(x), n, err },
		valid:   valid,
		toHex:   func(b []byte) string { return conv(b).ToHex() },
		bytes:   func(b []byte) []byte { return back(conv(b)) },
		marshal: func(b []byte) (string, error) { t, err := conv(b).MarshalText(); return string(t), err },
		unmarsh: func(s string) ([]byte, error) { var x T; err := P(&x).UnmarshalText([]byte(s)); return back(x), err },
		empty:   func(b []byte) bool { return conv(b).Empty() },
		alias: func(b []byte, a string) (string, string, string) {
			x := conv(b)
			x.RegisterAlias(a)
			d, s := x.Alias(), x.String()
			x.UnregisterAlias()

			return d, x.Alias(), s
		},
	}
}

func withList[T any, L ~[]T](o *idOps, conv func([]byte) T, back func(T) []byte, cmp func(a, b T) int, srt func(L), dedup func(L) L, hexes func(L) []string, fromHexs func([]string) (L, error)) *idOps {
	to := func(bs [][]byte) (l L) {
		for _, b := range bs {
			l = append(l, conv(b))
		}

		return l
	}
	from := func(l L) (bs [][]byte) {
		for _, x := range l {
			bs = append(bs, append([]byte{}, back(x)...))
		}

		return bs
	}
	o.compare = func(a, b []byte) int { return cmp(conv(a), conv(b)) }
	o.sort = func(bs [][]byte) [][]byte { l := to(bs); srt(l); return from(l) }
	o.dedup = func(bs [][]byte) [][]byte {
		l := to(bs)
		out := from(dedup(l))
		if fmt.Sprint(from(l)) != fmt.Sprint(bs) {
			panic("RemoveDupsAndSort changed its receiver")
		}

		return out
	}
	o.hexes = func(bs [][]byte) []string { return hexes(to(bs)) }
	o.fromHexs = func(s []string) ([][]byte, error) { l, err := fromHexs(s); return from(l), err }

	return o
}

func idKinds() []*idOps {
	c32 := func(b []byte) [32]byte { return [32]byte(b) }
	c36 := func(b []byte) [36]byte { return [36]byte(b) }
	cmp := func(f func(a, b []byte) int, o *idOps) *idOps { o.compare = f; return o }
	_ = cmp

	return []*idOps{
		mkID("Identifier", 32, func(b []byte) iotago.Identifier { return c32(b) }, iotago.IdentifierFromHexString, iotago.MustIdentifierFromHexString, iotago.IdentifierFromBytes, iotago.IsValidIdentifier),
		mkID("AccountID", 32, func(b []byte) iotago.AccountID { return c32(b) }, iotago.AccountIDFromHexString, iotago.MustAccountIDFromHexString, iotago.AccountIDFromBytes, iotago.IsValidAccountID),
		mkID("AnchorID", 32, func(b []byte) iotago.AnchorID { return c32(b) }, iotago.AnchorIDFromHexString, iotago.MustAnchorIDFromHexString, iotago.AnchorIDFromBytes, iotago.IsValidAnchorID),
		withList(mkID("BlockID", 36, func(b []byte) iotago.BlockID { return c36(b) }, iotago.BlockIDFromHexString, iotago.MustBlockIDFromHexString, iotago.BlockIDFromBytes, iotago.IsValidBlockID),
			func(b []byte) iotago.BlockID { return c36(b) }, func(x iotago.BlockID) []byte { return x[:] }, iotago.BlockID.Compare, iotago.BlockIDs.Sort, iotago.BlockIDs.RemoveDupsAndSort, iotago.BlockIDs.ToHex, iotago.BlockIDsFromHexString),
		withList(mkID("CommitmentID", 36, func(b []byte) iotago.CommitmentID { return c36(b) }, iotago.CommitmentIDFromHexString, iotago.MustCommitmentIDFromHexString, iotago.CommitmentIDFromBytes, iotago.IsValidCommitmentID),
			func(b []byte) iotago.CommitmentID { return c36(b) }, func(x iotago.CommitmentID) []byte { return x[:] }, iotago.CommitmentID.Compare, iotago.CommitmentIDs.Sort, iotago.CommitmentIDs.RemoveDupsAndSort, iotago.CommitmentIDs.ToHex, iotago.CommitmentIDsFromHexString),
		withList(mkID("TransactionID", 36, func(b []byte) iotago.TransactionID { return c36(b) }, iotago.TransactionIDFromHexString, iotago.MustTransactionIDFromHexString, iotago.TransactionIDFromBytes, iotago.IsValidTransactionID),
			func(b []byte) iotago.TransactionID { return c36(b) }, func(x iotago.TransactionID) []byte { return x[:] }, iotago.TransactionID.Compare, iotago.TransactionIDs.Sort, iotago.TransactionIDs.RemoveDupsAndSort, iotago.TransactionIDs.ToHex, iotago.TransactionIDsFromHexString),
		withList(mkID("SignedTransactionID", 36, func(b []byte) iotago.SignedTransactionID { return c36(b) }, iotago.SignedTransactionIDFromHexString, iotago.MustSignedTransactionIDFromHexString, iotago.SignedTransactionIDFromBytes, iotago.IsValidSignedTransactionID),
			func(b []byte) iotago.SignedTransactionID { return c36(b) }, func(x iotago.SignedTransactionID) []byte { return x[:] }, iotago.SignedTransactionID.Compare, iotago.SignedTransactionIDs.Sort, iotago.SignedTransactionIDs.RemoveDupsAndSort, iotago.SignedTransactionIDs.ToHex, iotago.SignedTransactionIDsFromHexString),
		withList(mkID("OutputID", 38, func(b []byte) iotago.OutputID { return [38]byte(b) }, iotago.OutputIDFromHexString, iotago.MustOutputIDFromHexString, iotago.OutputIDFromBytes, iotago.IsValidOutputID),
			func(b []byte) iotago.OutputID { return [38]byte(b) }, func(x iotago.OutputID) []byte { return x[:] }, iotago.OutputID.Compare, iotago.OutputIDs.Sort, iotago.OutputIDs.RemoveDupsAndSort, iotago.OutputIDs.ToHex, iotago.OutputIDsFromHexString),
	}
}

// refHexDecode: 0x prefixed hexadecimal text; the empty text stands for no bytes.
func refHexDecode(s string) ([]byte, bool) {
	if s == "" {
		return nil, true
	}
	if len(s) < 2 || s[0] != '0' || s[1] != 'x' && s[1] != 'X' {
		return nil, false
	}
	b, err := hex.DecodeString(s[2:])

	return b, err == nil
}

func p07IDs(t *Case) {
	o := idKinds()[t.R.Intn(8)]
	gen := func() []byte {
		b := rbytes(t.R, o.n)
		if coin(t.R, 4) {
			b = make([]byte, o.n)
			b[t.R.Intn(o.n)] = byte(t.R.Intn(3))
		}

		return b
	}
	b := gen()
	h := "0x" + hex.EncodeToString(b)
	t.Note("%s %x", o.name, b)
	t.Check(o.toHex(b) == h, "id-to-hex:"+o.name, "%s, want %s", o.toHex(b), h)
	t.Check(bytes.Equal(o.bytes(b), b), "id-bytes:"+o.name, "%x, want %x", o.bytes(b), b)
	m, err := o.marshal(b)
	t.Check(err == nil && m == h[2:], "id-marshal:"+o.name, "%s (%v)", m, err)
	t.Check(o.empty(b) == (strings.Trim(h[2:], "0") == ""), "id-empty:"+o.name, "%x is empty: %v", b, o.empty(b))
	t.Check(bytes.Equal(o.mustHex(h), b), "id-must-hex:"+o.name, "differs")
	texts := []string{h, strings.ToUpper(h), "0x" + strings.ToUpper(h[2:]), h[2:], h + "00", h[:len(h)-2], h[:len(h)-1], "", mutateText(t.R, h)}
	for _, s := range texts {
		want, ok := refHexDecode(s)
		ok = ok && len(want) == o.n
		got, err := o.fromHex(s)
		t.Check((err == nil) == ok && (!ok || bytes.Equal(got, want)), "id-from-hex:"+o.name, "%q gives %x (%v), want accepted %v", s, got, err, ok)
		s2 := strings.TrimPrefix(s, "0x")
		want, err2 := hex.DecodeString(s2)
		ok = err2 == nil && len(want) == o.n
		got, err = o.unmarsh(s2)
		t.Check((err == nil) == ok && (!ok || bytes.Equal(got, want)), "id-unmarshal:"+o.name, "%q gives %x (%v), want accepted %v", s2, got, err, ok)
	}
	raw := append(append([]byte{}, b...), rbytes(t.R, t.R.Intn(3))...)
	got, n, err := o.from(raw)
	t.Check(err == nil && n == o.n && bytes.Equal(got, b), "id-from-bytes:"+o.name, "%x %d %v", got, n, err)
	_, _, err = o.from(raw[:t.R.Intn(o.n)])
	t.Check(err != nil, "id-from-bytes:"+o.name, "accepts too few bytes")
	t.Check((o.valid(raw) == nil) == (len(raw) == o.n), "id-valid:"+o.name, "length %d: %v", len(raw), o.valid(raw))
	t.Eval(fmt.Sprintf("id:%s:%x", o.name, b[:2]))
	if o.compare == nil {
		return
	}
	c := gen()
	if coin(t.R, 2) {
		c = append([]byte{}, b...)
		c[t.R.Intn(o.n)] ^= byte(1 << t.R.Intn(8))
	}
	t.Check(o.compare(b, c) == bytes.Compare(b, c) && o.compare(c, b) == bytes.Compare(c, b) && o.compare(b, b) == 0, "id-compare:"+o.name, "comparison of %x and %x is %d", b, c, o.compare(b, c))
	var list [][]byte
	for i := t.R.Intn(12); i > 0; i-- {
		x := gen()
		if len(list) > 0 && coin(t.R, 2) {
			x = append([]byte{}, list[t.R.Intn(len(list))]...)
			if coin(t.R, 2) {
				x[t.R.Intn(o.n)] ^= byte(1 << t.R.Intn(8))
			}
		}
		list = append(list, x)
	}
	sorted := append([][]byte{}, list...)
	sort.Slice(sorted, func(i, j int) bool { return bytes.Compare(sorted[i], sorted[j]) < 0 })
	var uniq [][]byte
	var hexes []string
	for i, x := range sorted {
		if i == 0 || !bytes.Equal(x, sorted[i-1]) {
			uniq = append(uniq, x)
		}
	}
	for _, x := range list {
		hexes = append(hexes, "0x"+hex.EncodeToString(x))
	}
	t.Check(fmt.Sprintf("%x", o.sort(list)) == fmt.Sprintf("%x", sorted), "id-sort:"+o.name, "%x", o.sort(list))
	t.Check(fmt.Sprintf("%x", o.dedup(list)) == fmt.Sprintf("%x", uniq), "id-dedup:"+o.name, "%x, want %x", o.dedup(list), uniq)
	t.Check(fmt.Sprint(o.hexes(list)) == fmt.Sprint(hexes), "id-hexes:"+o.name, "%v", o.hexes(list))
	back, err := o.fromHexs(hexes)
	t.Check(err == nil && fmt.Sprintf("%x", back) == fmt.Sprintf("%x", list), "id-from-hexes:"+o.name, "%v", err)
	if len(hexes) > 0 {
		hexes[t.R.Intn(len(hexes))] = "0x00"
		_, err = o.fromHexs(hexes)
		t.Check(err != nil, "id-from-hexes:"+o.name, "a wrong ID in the list is accepted")
	}
	t.Eval(fmt.Sprintf("idlist:%s:%d:%d", o.name, len(list), len(uniq)))
}

// p07Indexes: slot and epoch indexes in bytes, and the parts of identifiers.
func p07Indexes(t *Case) {
	r := t.R
	v := ru32(r)
	le := binary.LittleEndian.AppendUint32(nil, v)
	sb, err := iotago.SlotIndex(v).Bytes()
	t.Check(err == nil && bytes.Equal(sb, le) && bytes.Equal(iotago.SlotIndex(v).MustBytes(), le), "slot-bytes", "slot %d is %x", v, sb)
	eb, err := iotago.EpochIndex(v).Bytes()
	t.Check(err == nil && bytes.Equal(eb, le) && bytes.Equal(iotago.EpochIndex(v).MustBytes(), le), "epoch-bytes", "epoch %d is %x", v, eb)
	raw := append(append([]byte{}, le...), rbytes(r, r.Intn(3))...)
	s, n, err := iotago.SlotIndexFromBytes(raw)
	t.Check(err == nil && n == 4 && uint32(s) == v, "slot-from-bytes", "%x is slot %d of %d bytes, %v", raw, s, n, err)
	e, n, err := iotago.EpochIndexFromBytes(raw)
	t.Check(err == nil && n == 4 && uint32(e) == v, "epoch-from-bytes", "%x is epoch %d of %d bytes, %v", raw, e, n, err)
	short := raw[:r.Intn(4)]
	_, _, err = iotago.SlotIndexFromBytes(short)
	_, _, err2 := iotago.EpochIndexFromBytes(short)
	t.Check(err != nil && err2 != nil, "index-short", "%x was accepted: %v, %v", short, err, err2)

	id := rbytes(r, 36)
	copy(id[32:], le)
	x := iotago.SlotIndex(v)
	tx, stx, cm, bl := iotago.TransactionID(id), iotago.SignedTransactionID(id), iotago.CommitmentID(id), iotago.BlockID(id)
	t.Check(tx.Slot() == x && tx.Index() == x && stx.Slot() == x && stx.Index() == x && cm.Slot() == x && cm.Index() == x && bl.Slot() == x && bl.Index() == x, "id-slot", "slots of %x: %d %d %d %d", id, tx.Slot(), stx.Slot(), cm.Slot(), bl.Slot())
	var idf iotago.Identifier
	copy(idf[:], id)
	t.Check(tx.Identifier() == idf && stx.Identifier() == idf && cm.Identifier() == idf && bl.Identifier() == idf, "id-identifier", "identifiers of %x", id)
	i := ru16(r)
	o := iotago.OutputID(append(append([]byte{}, id...), byte(i), byte(i>>8)))
	t.Check(o.Slot() == x && o.Index() == i && o.Identifier() == idf && o.TransactionID() == tx, "id-parts:output", "parts of %x: %d %d %x %x", o[:], o.Slot(), o.Index(), o.Identifier(), o.TransactionID())
	h := iotago.OutputIDHex("0x" + hex.EncodeToString(o[:]))
	ptx, pi := h.MustSplitParts()
	in := h.MustAsUTXOInput()
	t.Check(*ptx == tx && pi == i && in.TransactionID == tx && in.TransactionOutputIndex == i, "id-parts:hex", "parts of %s: %x %d", h, ptx[:], pi)
	t.Eval(fmt.Sprintf("index:%x", byte(v)))
}

func p07Alias(t *Case) {
	for _, o := range idKinds() {
		b := rbytes(t.R, o.n)
		a := rascii(t.R, 1+t.R.Intn(10))
		d, after, str := o.alias(b, a)
		t.Check(d == a && after == "0x"+hex.EncodeToString(b) && strings.Contains(str, a), "id-alias:"+o.name, "alias %q: during %q, after %q, text %q", a, d, after, str)
		t.Eval("alias:" + o.name)
	}
}

// ---- capabilities and numbers ----

func p07Caps(t *Case) {
	on := t.R.Intn(512)
	bit := func(i int) bool { return on>>i&1 == 1 }
	trim := func(b ...byte) []byte {
		for len(b) > 0 && b[len(b)-1] == 0 {
			b = b[:len(b)-1]
		}

		return b
	}
	t.Note("capabilities %09b", on)
	opts := []options.Option[iotago.AddressCapabilitiesOptions]{
		iotago.WithAddressCanReceiveNativeTokens(bit(0)), iotago.WithAddressCanReceiveMana(bit(1)), iotago.WithAddressCanReceiveOutputsWithTimelockUnlockCondition(bit(2)),
		iotago.WithAddressCanReceiveOutputsWithExpirationUnlockCondition(bit(3)), iotago.WithAddressCanReceiveOutputsWithStorageDepositReturnUnlockCondition(bit(4)),
		iotago.WithAddressCanReceiveAccountOutputs(bit(5)), iotago.WithAddressCanReceiveAnchorOutputs(bit(6)), iotago.WithAddressCanReceiveNFTOutputs(bit(7)), iotago.WithAddressCanReceiveDelegationOutputs(bit(8)),
	}
	if coin(t.R, 3) {
		opts = append([]options.Option[iotago.AddressCapabilitiesOptions]{iotago.WithAddressCanReceiveAnything()}, opts...)
	}
	t.R.Shuffle(len(opts)-1, func(i, j int) {
		if len(opts) == 9 {
			opts[i], opts[j] = opts[j], opts[i]
		}
	})
	want := trim(byte(on), byte(on>>8))
	m := iotago.AddressCapabilitiesBitMaskWithCapabilities(opts...)
	t.Check(bytes.Equal(m, want), "address-caps", "%x, want %x", []byte(m), want)
	inner := genDirectAddr(t.R)
	ra := iotago.RestrictedAddressWithCapabilities(inner, opts...)
	t.Check(bytes.Equal(ra.AllowedCapabilities, want) && ra.Address == inner && bytes.Equal(ra.AllowedCapabilitiesBitMask(), want), "restricted-caps", "%x", []byte(ra.AllowedCapabilities))
	dec, n, err := iotago.AddressCapabilitiesBitMaskFromBytes(append([]byte{byte(len(want))}, want...))
	t.Check(err == nil && n == 1+len(want) && bytes.Equal(dec, want), "caps-from-bytes", "%x %d %v", []byte(dec), n, err)
	all := iotago.AddressCapabilitiesBitMaskWithCapabilities(iotago.WithAddressCanReceiveAnything())
	t.Check(bytes.Equal(all, []byte{255, 1}), "address-caps-anything", "%x", []byte(all))
	queries := func(c iotago.AddressCapabilities) (out []bool) {
		return []bool{c.CannotReceiveNativeTokens(), c.CannotReceiveMana(), c.CannotReceiveOutputsWithTimelockUnlockCondition(), c.CannotReceiveOutputsWithExpirationUnlockCondition(), c.CannotReceiveOutputsWithStorageDepositReturnUnlockCondition(), c.CannotReceiveAccountOutputs(), c.CannotReceiveAnchorOutputs(), c.CannotReceiveNFTOutputs(), c.CannotReceiveDelegationOutputs()}
	}
	for _, c := range []iotago.AddressCapabilities{m, ra} {
		for i, cannot := range queries(c) {
			t.Check(cannot == !bit(i), "address-caps-query", "%T: query %d is %v", c, i, cannot)
		}
	}
	for i, cannot := range queries(genImplicit(t.R)) {
		t.Check(cannot == (i > 1), "implicit-caps", "query %d is %v", i, cannot)
	}
	topts := []options.Option[iotago.TransactionCapabilitiesOptions]{
		iotago.WithTransactionCanBurnNativeTokens(bit(0)), iotago.WithTransactionCanBurnMana(bit(1)), iotago.WithTransactionCanDestroyAccountOutputs(bit(2)), iotago.WithTransactionCanDestroyAnchorOutputs(bit(3)), iotago.WithTransactionCanDestroyFoundryOutputs(bit(4)), iotago.WithTransactionCanDestroyNFTOutputs(bit(5)),
	}
	t.R.Shuffle(len(topts), func(i, j int) { topts[i], topts[j] = topts[j], topts[i] })
	tm := iotago.TransactionCapabilitiesBitMaskWithCapabilities(topts...)
	t.Check(bytes.Equal(tm, trim(byte(on&63))), "tx-caps", "%x, want %x", []byte(tm), trim(byte(on&63)))
	tall := iotago.TransactionCapabilitiesBitMaskWithCapabilities(iotago.WithTransactionCanDoAnything())
	t.Check(bytes.Equal(tall, []byte{63}), "tx-caps-anything", "%x", []byte(tall))
	for i, cannot := range []bool{tm.CannotBurnNativeTokens(), tm.CannotBurnMana(), tm.CannotDestroyAccountOutputs(), tm.CannotDestroyAnchorOutputs(), tm.CannotDestroyFoundryOutputs(), tm.CannotDestroyNFTOutputs()} {
		t.Check(cannot == !bit(i), "tx-caps-query", "query %d is %v", i, cannot)
	}
	tdec, n, err := iotago.TransactionCapabilitiesBitMaskFromBytes(append([]byte{byte(len(tm))}, tm...))
	t.Check(err == nil && n == 1+len(tm) && bytes.Equal(tdec, tm), "tx-caps-from-bytes", "%x %d %v", []byte(tdec), n, err)
	t.Eval(fmt.Sprintf("caps:%d", on))
	// any mask
	mask := rbytes(t.R, t.R.Intn(4))
	for i := uint(0); i < 32; i++ {
		t.Check(iotago.BitMaskHasBit(mask, i) == refCap(mask, int(i)), "bitmask-has", "bit %d of %x", i, mask)
	}
	b := uint(t.R.Intn(32))
	set := iotago.BitMaskSetBit(append([]byte{}, mask...), b)
	for i := uint(0); i < 40; i++ {
		t.Check(refCap(set, int(i)) == (refCap(mask, int(i)) || i == b), "bitmask-set", "setting bit %d of %x gives %x", b, mask, set)
	}
	t.Check(len(set) == max(len(mask), int(b)/8+1), "bitmask-set", "setting bit %d of %x gives %x", b, mask, set)
	t.Check((iotago.BitMaskNonTrailingZeroBytesValidatorFunc(mask) == nil) == (len(mask) == 0 || mask[len(mask)-1] != 0), "bitmask-trailing", "%x", mask)
}

func p07Hex(t *Case) {
	b := rbytes(t.R, t.R.Intn(40))
	h := ""
	if len(b) > 0 {
		h = "0x" + hex.EncodeToString(b)
	}
	t.Check(hexutil.EncodeHex(b) == h, "hex-encode", "%q, want %q", hexutil.EncodeHex(b), h)
	for _, s := range []string{h, strings.ToUpper(h), mutateText(t.R, h), "0x", "0x0", "0X" + h} {
		want, ok := refHexDecode(s)
		got, err := hexutil.DecodeHex(s)
		t.Check((err == nil) == ok && (!ok || bytes.Equal(got, want)), "hex-decode", "%q gives %x (%v), want accepted %v", s, got, err, ok)
		t.Eval(fmt.Sprintf("hex:%v:%d", ok, len(want)))
	}
	u := ru64(t.R)
	us := strconv.FormatUint(u, 10)
	t.Check(hexutil.EncodeUint64(u) == us, "uint64-encode", "%s", hexutil.EncodeUint64(u))
	x, err := hexutil.DecodeUint64(us)
	t.Check(err == nil && x == u, "uint64-decode", "%d %v", x, err)
	_, err = hexutil.DecodeUint64(new(big.Int).Add(new(big.Int).SetUint64(u), new(big.Int).Lsh(big.NewInt(1), 64)).String())
	t.Check(err != nil, "uint64-decode", "accepts a number above 2^64")
	// only decimal digits are a number, and leading zeros do not make it octal
	for _, s := range []string{"0" + us, "00" + us, "0x" + us, "0x" + strconv.FormatUint(u, 16), "0b1", "0o17", "0" + strconv.FormatUint(u>>3, 8), us[:1] + "_" + us, "+" + us, "-" + us, us + " ", "", us + "." + us} {
		got, err := hexutil.DecodeUint64(s)
		digits := s != "" && strings.Trim(s, "0123456789") == ""
		v, _ := new(big.Int).SetString(s, 10)
		ok := digits && v.IsUint64()
		t.Check((err == nil) == ok && (!ok || got == v.Uint64()), "uint64-text", "%q gives %d (%v), want accepted %v", s, got, err, ok)
	}
	n := rbig(t.R)
	ns := "0x" + n.Text(16)
	t.Check(hexutil.EncodeUint256(n) == ns, "uint256-encode", "%s, want %s", hexutil.EncodeUint256(n), ns)
	d, err := hexutil.DecodeUint256(ns)
	t.Check(err == nil && d.Cmp(n) == 0, "uint256-decode", "%v %v", d, err)
	for _, s := range []string{"", "0x", "0x0" + n.Text(16), "0x1" + strings.Repeat("0", 64), "-" + ns, n.String() + "z"} {
		_, err := hexutil.DecodeUint256(s)
		t.Check(err != nil, "uint256-decode", "accepts %q", s)
	}
}

func init() {
	register("P07", func(c *Ctx) {
		c.Rule("Text forms are judged by an independent BIP-173 and hexadecimal implementation: encoding random human-readable parts and data, decoding valid, substituted, re-cased, mis-padded, over-long and arbitrarily mutated texts (verdict and result must agree); addresses are written, parsed, re-written, and arbitrary address payloads with correct checksums are accepted exactly if they are a canonical address; all eight identifier types are converted, compared, sorted and deduplicated against the reference; capability masks are compared bit by bit for all 512 option sets. Distinct keys: operation, shape and verdict.")
		c.Run("bech32", c.N(12000, 400000), p07Bech32)
		c.Run("address", c.N(10000, 300000), p07Address)
		c.Run("ids", c.N(15000, 300000), p07IDs)
		c.Run("indexes", c.N(4000, 100000), p07Indexes)
		c.Run("alias", c.N(200, 2000), p07Alias)
		c.Run("caps", c.N(6000, 60000), p07Caps)
		c.Run("hex", c.N(10000, 200000), p07Hex)
	})
}
