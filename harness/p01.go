package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/merklehasher"
)

func refKind(k *kind, obj any) (b []byte) {
	if k.name == "merkle-proof" {
		return refProof[iotago.Identifier](obj.(*merklehasher.Proof[iotago.Identifier]).MerkleHashable)
	}

	return k.ref(obj)
}

// mutateBytes makes a hostile variation of b.
func mutateBytes(r *rand.Rand, b []byte) []byte {
	out := append([]byte{}, b...)
	n := 1
	if coin(r, 3) {
		n = 1 + r.Intn(4)
	}
	for ; n > 0; n-- {
		if len(out) == 0 {
			return rbytes(r, r.Intn(8))
		}
		i := r.Intn(len(out))
		if coin(r, 2) { // the structure is mostly at the front
			i = r.Intn(min(len(out), 80))
		}
		switch r.Intn(10) {
		case 0, 1:
			out[i] ^= 1 << r.Intn(8)
		case 2:
			out[i] = byte(r.Intn(256))
		case 3:
			out[i]++
		case 4:
			out[i]--
		case 5: // delete a piece
			j := min(i+1+r.Intn(8), len(out))
			out = append(out[:i], out[j:]...)
		case 6: // insert
			out = append(out[:i], append(rbytes(r, 1+r.Intn(8)), out[i:]...)...)
		case 7: // swap two neighbouring pieces
			l := 1 + r.Intn(40)
			if i+2*l <= len(out) {
				t := append([]byte{}, out[i:i+l]...)
				copy(out[i:i+l], out[i+l:i+2*l])
				copy(out[i+l:i+2*l], t)
			}
		case 8: // duplicate a piece
			l := min(1+r.Intn(40), len(out)-i)
			out = append(out[:i+l], append(append([]byte{}, out[i:i+l]...), out[i+l:]...)...)
		case 9:
			out = out[:i]
		}
	}

	return out
}

func init() {
	register("P01", func(c *Ctx) {
		c.Rule("Random well-formed objects of every serializable kind are encoded with the code under test and with an independent byte level reference encoder; decoded from bytes (with trailing bytes) and JSON and re-encoded. Mutated encodings (bit flips, length changes, swapped/duplicated/deleted pieces) which are accepted must reproduce exactly the consumed bytes. An evaluation is non-trivial if the codec ran to completion on it; distinct keys are kind, size class and shape of the object or the mutation.")
		c.RunSerial("header-time", 1, func(t *Case) {
			w := worlds()[0]
			b := refAttestation(genAttestation(t.R, w))
			binary.LittleEndian.PutUint64(b[9:], math.MaxInt64+1)
			dec, _, err := decIntoPtr[iotago.Attestation](w, b, serix.WithValidation())
			t.Eval("header-time")
			if err == nil {
				d := sameBytes(refAttestation(dec.(*iotago.Attestation)), b)
				t.Check(d == "", "header-time-above-max-int64", "a header with an issuing time of 2^63 ns is accepted and re-encodes to other bytes: %s", d)
			}
		})
		for _, k := range kinds {
			k := k
			c.Run("roundtrip/"+k.name, c.N(700, 40000), func(t *Case) { p01Roundtrip(t, k) })
			c.Run("canonical/"+k.name, c.N(1500, 80000), func(t *Case) { p01Canonical(t, k) })
		}
	})
}

func shape(b []byte) string {
	if len(b) > 12 {
		return fmt.Sprintf("%d:%x", len(b), b[:4])
	}

	return fmt.Sprintf("%x", b)
}

func p01Roundtrip(t *Case, k *kind) {
	w := pickWorld(t.R)
	obj := k.gen(t.R, w)
	want := refKind(k, obj)
	t.Note("world %s, reference encoding %x", w.Name, want)
	got, err := encodeKind(k, w, obj)
	if !t.Check(err == nil, "encode-error:"+k.name, "encoding failed: %v", err) {
		return
	}
	if d := sameBytes(got, want); !t.Check(d == "", "encode-differs:"+k.name, "the encoding differs from the wire format: %s", d) {
		return
	}
	t.Eval("enc:" + k.name + ":" + shape(want))
	t.Sample(map[string]string{"kind": k.name, "bytes": fmt.Sprintf("%.160x", want)})
	var opts []serix.Option
	if k.valid {
		opts = append(opts, serix.WithValidation())
		if k.name != "merkle-proof" {
			vb, err := encodeKind(k, w, obj, serix.WithValidation())
			if t.Check(err == nil, "encode-validation-error:"+k.name, "encoding a valid object with validation failed: %v", err) {
				t.Check(bytes.Equal(vb, want), "encode-validation-differs:"+k.name, "encoding with validation differs")
			}
		}
	}
	in := append(append([]byte{}, want...), rbytes(t.R, t.R.Intn(4))...)
	dec, n, err := k.dec(w, in, opts...)
	if !t.Check(err == nil, "decode-error:"+k.name, "decoding a valid encoding failed: %v", err) {
		return
	}
	t.Check(n == len(want), "decode-consumed:"+k.name, "decoding consumed %d of %d bytes", n, len(want))
	if d := sameBytes(refKind(k, dec), want); !t.Check(d == "", "decode-differs:"+k.name, "the decoded object differs: %s", d) {
		return
	}
	t.Eval("dec:" + k.name + ":" + shape(want))
	if k.decJ == nil {
		return
	}
	j, err := jsonEncodeKind(k, w, obj)
	if !t.Check(err == nil, "json-encode-error:"+k.name, "JSON encoding failed: %v", err) {
		return
	}
	t.Note("json %s", j)
	dj, err := k.decJ(w, j, opts...)
	if !t.Check(err == nil, "json-decode-error:"+k.name, "decoding the JSON form failed: %v", err) {
		return
	}
	if d := sameBytes(refKind(k, dj), want); !t.Check(d == "", "json-differs:"+k.name, "the object decoded from JSON differs: %s", d) {
		return
	}
	// the JSON form is itself canonical
	j2, err := jsonEncodeKind(k, w, dj)
	t.Check(err == nil && sameJSON(j, j2), "json-not-stable:"+k.name, "JSON encoding is not stable (%v):\n%s\n%s", err, j, j2)
	t.Eval("json:" + k.name + ":" + shape(want))
}

func p01Canonical(t *Case, k *kind) {
	w := pickWorld(t.R)
	obj := k.gen(t.R, w)
	valid := refKind(k, obj)
	in := mutateBytes(t.R, valid)
	t.Note("world %s\nvalid   %x\nmutated %x", w.Name, valid, in)
	if declaredDataLen(k.name, in) > 1<<20 {
		t.Count("mutants skipped: would allocate the declared length (P02)")

		return
	}
	dec, n, err := k.dec(w, in, serix.WithValidation())
	if err != nil {
		t.Eval("rejected:" + k.name + ":" + shape(in))
		t.Count("mutants rejected")

		return
	}
	t.Count("mutants accepted")
	if !t.Check(n <= len(in), "consumed-too-much:"+k.name, "consumed %d of %d bytes", n, len(in)) {
		return
	}
	want := in[:n]
	if d := sameBytes(refKind(k, dec), want); d != "" && (k.name == "attestation" || k.name == "block" || k.name == "block-valid") && len(want) > 17 && binary.LittleEndian.Uint64(want[9:]) > math.MaxInt64 {
		// see known_findings.json: the rest of the encoding still has to match
		t.Violate("header-time-above-max-int64", "a header with an issuing time of %d ns is accepted and re-encodes to other bytes", binary.LittleEndian.Uint64(want[9:]))
		want = append([]byte{}, want...)
		binary.LittleEndian.PutUint64(want[9:], math.MaxInt64)
	}
	if d := sameBytes(refKind(k, dec), want); !t.Check(d == "", "not-canonical:"+k.name, "an accepted encoding does not match the decoded object's encoding: %s", d) {
		return
	}
	re, err := encodeKind(k, w, dec)
	if t.Check(err == nil, "reencode-error:"+k.name, "re-encoding an accepted object failed: %v", err) {
		t.Check(bytes.Equal(re, want), "reencode-differs:"+k.name, "re-encoding an accepted object differs: %s", sameBytes(re, want))
	}
	t.Eval("accepted:" + k.name + ":" + shape(in))
}

// sameJSON compares JSON documents; the order of object members (metadata maps) carries no information.
func sameJSON(a, b []byte) bool {
	var x, y any
	if json.Unmarshal(a, &x) != nil || json.Unmarshal(b, &y) != nil {
		return false
	}

	return reflect.DeepEqual(x, y)
}
