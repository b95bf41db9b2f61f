package main

import (
	"bytes"
	"crypto"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/merklehasher"
)

// P24: Merkle roots, inclusion proofs, commitment roots and output ID proofs.

type bval []byte

func (b bval) Bytes() ([]byte, error) { return b, nil }

// refProofOf is the encoded audit path of leaves[i], written from the description of the tree.
func refProofOf(leaves [][]byte, i int) []byte {
	h := func(tag byte, x [32]byte) []byte { return append([]byte{tag, 32}, x[:]...) }
	if len(leaves) == 1 {
		return h(2, blake([]byte{0}, leaves[0]))
	}
	k := 1
	for k*2 < len(leaves) {
		k *= 2
	}
	if i < k {
		return append(append([]byte{0}, refProofOf(leaves[:k], i)...), h(1, refMerkle(leaves[k:]))...)
	}

	return append(append([]byte{0}, h(1, refMerkle(leaves[:k]))...), refProofOf(leaves[k:], i-k)...)
}

// refProofRoot and refProofValues evaluate a proof independently.
func refProofRoot[V merklehasher.Value](h merklehasher.MerkleHashable[V]) []byte {
	switch h := h.(type) {
	case *merklehasher.Node[V]:
		x := blake([]byte{1}, refProofRoot[V](h.Left), refProofRoot[V](h.Right))

		return x[:]
	case *merklehasher.LeafHash[V]:
		return h.Hash
	case *merklehasher.ValueHash[V]:
		return h.Hash
	}

	return nil
}

func refProofContains[V merklehasher.Value](h merklehasher.MerkleHashable[V], leaf [32]byte) bool {
	switch h := h.(type) {
	case *merklehasher.Node[V]:
		return refProofContains[V](h.Left, leaf) || refProofContains[V](h.Right, leaf)
	case *merklehasher.ValueHash[V]:
		return bytes.Equal(h.Hash, leaf[:])
	}

	return false
}

// tamper changes one place of a proof.
func tamper[V merklehasher.Value](r *rand.Rand, h merklehasher.MerkleHashable[V], pool [][]byte) merklehasher.MerkleHashable[V] {
	flip := func(b []byte) []byte {
		c := append([]byte{}, b...)
		switch r.Intn(5) {
		case 0:
			if len(c) > 0 {
				c = c[:r.Intn(len(c))]
			}
		case 1:
			c = append(c, byte(r.Intn(256)))
		case 2:
			c = append([]byte{}, pool[r.Intn(len(pool))]...)
		default:
			if len(c) > 0 {
				c[r.Intn(len(c))] ^= 1 << r.Intn(8)
			}
		}

		return c
	}
	switch h := h.(type) {
	case *merklehasher.Node[V]:
		switch r.Intn(6) {
		case 0:
			return &merklehasher.Node[V]{Left: h.Right, Right: h.Left}
		case 1:
			return h.Left
		case 2:
			return h.Right
		case 3:
			return &merklehasher.Node[V]{Left: tamper[V](r, h.Left, pool), Right: h.Right}
		case 4:
			return &merklehasher.Node[V]{Left: h.Left, Right: tamper[V](r, h.Right, pool)}
		default: // present the node as a leaf or value
			if r.Intn(2) == 0 {
				return &merklehasher.ValueHash[V]{Hash: refProofRoot[V](h)}
			}

			return &merklehasher.LeafHash[V]{Hash: refProofRoot[V](h)}
		}
	case *merklehasher.LeafHash[V]:
		if r.Intn(3) == 0 {
			return &merklehasher.ValueHash[V]{Hash: h.Hash}
		}
		if r.Intn(4) == 0 {
			return &merklehasher.Node[V]{Left: h, Right: &merklehasher.ValueHash[V]{Hash: pool[r.Intn(len(pool))]}}
		}

		return &merklehasher.LeafHash[V]{Hash: flip(h.Hash)}
	case *merklehasher.ValueHash[V]:
		if r.Intn(3) == 0 {
			return &merklehasher.LeafHash[V]{Hash: h.Hash}
		}
		if r.Intn(4) == 0 {
			return &merklehasher.Node[V]{Left: &merklehasher.LeafHash[V]{Hash: pool[r.Intn(len(pool))]}, Right: h}
		}

		return &merklehasher.ValueHash[V]{Hash: flip(h.Hash)}
	}

	return h
}

func merkleSize(r *rand.Rand, max int) int {
	switch r.Intn(4) {
	case 0:
		return 1 + r.Intn(9)
	case 1: // around powers of two
		n := (1 << r.Intn(9)) + r.Intn(3) - 1
		if n < 1 || n > max {
			n = 1
		}

		return n
	default:
		return 1 + r.Intn(max)
	}
}

// merkleCase runs everything on one list of values.
func merkleCase[V merklehasher.Value](t *Case, kind string, values []V, foreign []V, indexes []int) {
	h := merklehasher.NewHasher[V](crypto.BLAKE2b_256)
	leaf := func(v V) []byte {
		b, err := v.Bytes()
		if err != nil {
			t.Stop()
		}

		return b
	}
	var leaves [][]byte
	for _, v := range values {
		leaves = append(leaves, leaf(v))
	}
	member := func(b []byte) bool {
		for _, l := range leaves {
			if bytes.Equal(l, b) {
				return true
			}
		}

		return false
	}
	root := refMerkle(leaves)
	n := len(values)
	t.Note("%s: %d values, root %x", kind, n, root)
	got, err := h.HashValues(values)
	t.Check(err == nil && bytes.Equal(got, root[:]), "root:"+kind, "HashValues gives %x (%v), expected %x", got, err, root)
	t.Check(bytes.Equal(h.Hash(leaves), root[:]), "root:Hash", "Hash gives %x, expected %x", h.Hash(leaves), root)
	t.Eval(fmt.Sprintf("root/%s/%d", kind, n))
	t.Count("roots compared")
	for i, l := range leaves {
		if !bytes.Equal(leaf(values[i]), l) {
			t.Violate("root:changes-values", "HashValues changed value %d", i)
		}
	}
	for _, i := range indexes {
		proof, err := h.ComputeProofForIndex(values, i)
		if i < 0 || i >= n {
			t.Check(err != nil, "proof:index-out-of-range-accepted", "index %d of %d values gives a proof", i, n)
			t.Count("out of range indexes")

			continue
		}
		if !t.Check(err == nil && proof != nil, "proof:refused", "no proof for index %d of %d: %v", i, n, err) {
			continue
		}
		t.Count("proofs checked")
		t.Eval(fmt.Sprintf("proof/%s/%d/%d", kind, n, i))
		t.Check(bytes.Equal(proof.Hash(h), root[:]), "proof:hash", "proof of index %d of %d hashes to %x, root is %x", i, n, proof.Hash(h), root)
		c, err := proof.ContainsValue(values[i], h)
		t.Check(err == nil && c, "proof:does-not-contain-its-value", "proof of index %d of %d does not contain its value (%v)", i, n, err)
		want := refProofOf(leaves, i)
		enc, err := proof.Bytes()
		t.Check(err == nil && bytes.Equal(enc, want), "proof:not-the-audit-path", "proof of index %d of %d is %x (%v), expected %x", i, n, enc, err, want)
		for j := 0; j < 3; j++ {
			k := t.R.Intn(n)
			c, err := proof.ContainsValue(values[k], h)
			t.Check(err == nil && c == bytes.Equal(leaves[k], leaves[i]), "proof:contains-another-member", "proof of index %d contains index %d: %v %v", i, k, c, err)
		}
		for _, v := range foreign {
			c, err := proof.ContainsValue(v, h)
			t.Check(err == nil && c == bytes.Equal(leaf(v), leaves[i]), "proof:contains-a-foreign-value", "proof of index %d contains %x: %v %v", i, leaf(v), c, err)
		}
		// serialized forms
		if p2, cn, err := merklehasher.ProofFromBytes[V](append(append([]byte{}, want...), 7, 7)[:len(want)]); t.Check(err == nil && cn == len(want), "proof:binary-round-trip", "ProofFromBytes: %d of %d, %v", cn, len(want), err) {
			c, err := p2.ContainsValue(values[i], h)
			t.Check(err == nil && c && bytes.Equal(p2.Hash(h), root[:]), "proof:binary-round-trip", "decoded proof: contains=%v %v hash=%x root=%x", c, err, p2.Hash(h), root)
		}
		if js, err := proof.JSONEncode(); t.Check(err == nil, "proof:json-round-trip", "JSONEncode: %v", err) {
			p3, err := merklehasher.ProofFromJSON[V](js)
			if t.Check(err == nil, "proof:json-round-trip", "ProofFromJSON(%s): %v", js, err) {
				c, err := p3.ContainsValue(values[i], h)
				t.Check(err == nil && c && bytes.Equal(p3.Hash(h), root[:]), "proof:json-round-trip", "decoded proof: contains=%v %v hash=%x root=%x", c, err, p3.Hash(h), root)
				b3, err := p3.Bytes()
				t.Check(err == nil && bytes.Equal(b3, want), "proof:json-round-trip", "proof decoded from JSON encodes to %x (%v), expected %x", b3, err, want)
			}
		}
		// forged proofs
		pool := [][]byte{root[:], leaves[t.R.Intn(n)], {}, rbytes(t.R, 32)}
		for _, l := range []V{values[t.R.Intn(n)], foreign[t.R.Intn(len(foreign))]} {
			x := blake([]byte{0}, leaf(l))
			pool = append(pool, x[:])
			y := blake(leaf(l))
			pool = append(pool, y[:], append([]byte{}, x[:16]...), append(append([]byte{}, x[:]...), root[:]...))
		}
		for j := 0; j < 6; j++ {
			f := proof.MerkleHashable
			for k := 0; k <= t.R.Intn(3); k++ {
				f = tamper[V](t.R, f, pool)
			}
			fp := &merklehasher.Proof[V]{MerkleHashable: f}
			gh := fp.Hash(h)
			t.Check(bytes.Equal(gh, refProofRoot[V](f)), "forged:hash", "proof %x hashes to %x, expected %x", refProof[V](f), gh, refProofRoot[V](f))
			for _, v := range []V{values[i], values[t.R.Intn(n)], foreign[t.R.Intn(len(foreign))]} {
				c, err := fp.ContainsValue(v, h)
				want := refProofContains[V](f, blake([]byte{0}, leaf(v)))
				t.Check(err == nil && c == want, "forged:membership", "proof %x contains %x: %v (%v), expected %v", refProof[V](f), leaf(v), c, err, want)
				if c && bytes.Equal(gh, root[:]) {
					t.Count("altered proofs which still verify")
					t.Check(member(leaf(v)), "forged:accepted", "forged proof %x of a value not in the tree verifies", refProof[V](f))
				}
			}
			t.Count("altered proofs")
		}
	}
	// by value
	for j := 0; j < 3; j++ {
		k := t.R.Intn(n)
		proof, err := h.ComputeProof(values, values[k])
		first := k
		for i := range leaves {
			if bytes.Equal(leaves[i], leaves[k]) {
				first = i

				break
			}
		}
		if t.Check(err == nil, "by-value:refused", "ComputeProof of member %d: %v", k, err) {
			b, err := proof.Bytes()
			t.Check(err == nil && bytes.Equal(b, refProofOf(leaves, first)), "by-value:path", "ComputeProof of member %d gives %x (%v)", k, b, err)
		}
	}
	for _, v := range foreign {
		proof, err := h.ComputeProof(values, v)
		if member(leaf(v)) {
			continue
		}
		t.Check(err != nil && proof == nil && errors.Is(err, merklehasher.ErrProofValueNotFound), "by-value:foreign", "ComputeProof of a value which is not in the list: %v %v", proof, err)
		t.Count("foreign values")
	}
}

func init() {
	register("P24", func(c *Ctx) {
		c.Rule("lists of 1..~520 values (byte strings of many lengths, block IDs, identifiers, outputs) with duplicates; roots, proofs for many indexes, by value, their binary and JSON forms, altered and forged proofs (bits, lengths, kinds, swapped and replaced subtrees), against an independent Merkle implementation; every size 0..130 with every index")
		c.Rule("commitment roots: ID and the three proofs against every root, altered roots and other trees; output ID proofs: every output of random transactions, other outputs, altered fields, both encodings")
		c.Assume("BLAKE2b-256 of golang.org/x/crypto is the hash function")
		c.Assume("The binding of an output ID proof's index to its position in the tree is not specified and not judged")

		// every size and every index
		c.Run("all-sizes", 131, func(t *Case) {
			var vals []bval
			for i := 0; i < t.Index; i++ {
				var b [4]byte
				binary.LittleEndian.PutUint32(b[:], uint32(i))
				vals = append(vals, b[:])
			}
			h := merklehasher.NewHasher[bval](crypto.BLAKE2b_256)
			if t.Index == 0 {
				e := blake()
				got, err := h.HashValues(vals)
				t.Check(err == nil && bytes.Equal(got, e[:]), "root:empty", "root of no values is %x", got)
				t.Check(bytes.Equal(h.EmptyRoot(), e[:]) && bytes.Equal(h.Hash(nil), e[:]), "root:empty", "EmptyRoot is %x", h.EmptyRoot())
				t.Check(h.Size() == 32, "root:size", "Size is %d", h.Size())
				for i := -2; i < 3; i++ {
					_, err = h.ComputeProofForIndex(vals, i)
					t.Check(err != nil, "proof:of-nothing", "proof for an empty list")
				}
				_, err = h.ComputeProof(vals, bval{1})
				t.Check(errors.Is(err, merklehasher.ErrProofValueNotFound), "proof:of-nothing", "proof for an empty list: %v", err)
				t.Eval("empty")

				return
			}
			idx := []int{-1, -t.Index, t.Index, t.Index + 1, 1 << 40, -1 << 60}
			for i := range vals {
				idx = append(idx, i)
			}
			if t.Index > 40 && !c.Thorough() {
				idx = append(idx[:6], t.R.Perm(t.Index)[:20]...)
			}
			merkleCase(t, "bytes", vals, []bval{{}, {1, 2, 3}, rbytes(t.R, 4)}, idx)
		})
		some := func(r *rand.Rand, n int) []int {
			idx := []int{0, n - 1, n, -1}
			for i := 0; i < 4; i++ {
				idx = append(idx, r.Intn(n))
			}

			return idx
		}
		c.Run("bytes", c.N(8000, 200000), func(t *Case) {
			r := t.R
			n := merkleSize(r, 130)
			if coin(r, 12) {
				n = merkleSize(r, 520)
			}
			max := []int{1, 4, 32, 33, 64, 65, 66, 200}[r.Intn(8)]
			var vals []bval
			for i := 0; i < n; i++ {
				if i > 0 && coin(r, 10) {
					vals = append(vals, vals[r.Intn(i)])
				} else {
					vals = append(vals, rbytes(r, r.Intn(max+1)))
				}
			}
			// foreign values that resemble nodes of the tree
			leaves := make([][]byte, n)
			for i, v := range vals {
				leaves[i] = v
			}
			rt := refMerkle(leaves)
			foreign := []bval{rt[:], append([]byte{0}, vals[0]...), append(bval{}, vals[n-1]...)}
			if n > 1 {
				k := 1
				for k*2 < n {
					k *= 2
				}
				l, rr := refMerkle(leaves[:k]), refMerkle(leaves[k:])
				foreign = append(foreign, append(l[:], rr[:]...), append(append([]byte{1}, l[:]...), rr[:]...))
			}
			merkleCase(t, "bytes", vals, foreign, some(r, n))
			t.Sample(map[string]any{"values": n, "root": fmt.Sprintf("%x", rt)})
			// a different list has a different root
			h := merklehasher.NewHasher[bval](crypto.BLAKE2b_256)
			other := append([]bval{}, vals...)
			switch r.Intn(4) {
			case 0:
				other = append(other, other[n-1])
			case 1:
				other = other[:n-1]
			case 2:
				i, j := r.Intn(n), r.Intn(n)
				other[i], other[j] = other[j], other[i]
				if bytes.Equal(other[i], other[j]) {
					return
				}
			case 3:
				i := r.Intn(n)
				other[i] = append(append(bval{}, other[i]...), 0)
			}
			got, err := h.HashValues(other)
			t.Check(err == nil && !bytes.Equal(got, rt[:]), "root:collision", "two different lists have root %x", got)
		})
		c.Run("block-ids", c.N(1500, 30000), func(t *Case) {
			n := merkleSize(t.R, 200)
			var vals []iotago.BlockID
			for i := 0; i < n; i++ {
				vals = append(vals, genSlotID(t.R))
			}
			merkleCase(t, "block-ids", vals, []iotago.BlockID{genSlotID(t.R), {}}, some(t.R, n))
		})
		c.Run("roots", c.N(20000, 500000), func(t *Case) {
			r := t.R
			roots := genRoots(r)
			if coin(r, 3) { // equal roots are common in practice
				roots.StateMutationRoot = roots.TangleRoot
			}
			order := []iotago.Identifier{roots.TangleRoot, roots.StateMutationRoot, roots.StateRoot, roots.AccountRoot, roots.AttestationsRoot, roots.CommitteeRoot, roots.RewardsRoot, roots.ProtocolParametersHash}
			viaNew := iotago.NewRoots(roots.TangleRoot, roots.StateMutationRoot, roots.AttestationsRoot, roots.StateRoot, roots.AccountRoot, roots.CommitteeRoot, roots.RewardsRoot, roots.ProtocolParametersHash)
			t.Check(*viaNew == *roots, "roots:constructor", "NewRoots mixes up the roots: %+v, expected %+v", viaNew, roots)
			var leaves [][]byte
			for i := range order {
				leaves = append(leaves, order[i][:])
			}
			want := refMerkle(leaves)
			t.Check(roots.ID() == want, "roots:id", "ID is %x, expected %x", roots.ID(), want)
			proofs := map[int]*merklehasher.Proof[iotago.Identifier]{0: roots.TangleProof(), 1: roots.MutationProof(), 4: roots.AttestationsProof()}
			for k, p := range proofs {
				b, err := p.Bytes()
				t.Check(err == nil && bytes.Equal(b, refProofOf(leaves, k)), "roots:proof-of-another", "proof of root %d is %x (%v)", k, b, err)
				for i, o := range order {
					ok := iotago.VerifyProof(p, o, roots.ID())
					t.Check(ok == (o == order[k]), "roots:verify", "VerifyProof of proof %d with root %d is %v", k, i, ok)
					t.Eval(fmt.Sprintf("roots/%d/%d/%v", k, i, ok))
				}
				bad := order[k]
				bad[r.Intn(32)] ^= 1 << r.Intn(8)
				t.Check(!iotago.VerifyProof(p, bad, roots.ID()) || bad == order[k], "roots:verify-altered", "an altered root is accepted")
				id := roots.ID()
				id[r.Intn(32)] ^= 1 << r.Intn(8)
				t.Check(!iotago.VerifyProof(p, order[k], id), "roots:verify-other-tree", "the proof is accepted for another tree")
				other := genRoots(r)
				t.Check(!iotago.VerifyProof(p, order[k], other.ID()), "roots:verify-other-tree", "the proof is accepted for another tree")
				op := other.TangleProof()
				t.Check(!iotago.VerifyProof(op, order[k], roots.ID()), "roots:foreign-proof", "the proof of another tree is accepted")
				f := &merklehasher.Proof[iotago.Identifier]{MerkleHashable: tamper[iotago.Identifier](r, p.MerkleHashable, [][]byte{order[k][:], want[:], id[:]})}
				fid := iotago.Identifier(rbytes(r, 32))
				for _, v := range []iotago.Identifier{fid, roots.ID(), order[r.Intn(8)]} {
					leaf := blake([]byte{0}, v[:])
					ref := refProofContains[iotago.Identifier](f.MerkleHashable, leaf) && bytes.Equal(refProofRoot[iotago.Identifier](f.MerkleHashable), want[:])
					t.Check(iotago.VerifyProof(f, v, roots.ID()) == ref, "roots:forged", "forged proof %x of %x: expected %v", refProof[iotago.Identifier](f.MerkleHashable), v, ref)
				}
				t.Count("root proofs verified")
			}
		})
		c.Run("output-id-proof", c.N(10000, 300000), func(t *Case) {
			r := t.R
			w := pickWorld(r)
			tx := genTx(r, w)
			if coin(r, 3) && len(tx.Outputs) > 1 {
				tx.Outputs[0] = tx.Outputs[len(tx.Outputs)-1].Clone().(iotago.TxEssenceOutput)
			}
			txID := refTxID(tx)
			tc := blake(refEssence(tx.TransactionEssence))
			n := len(tx.Outputs)
			var leaves [][]byte
			for _, o := range tx.Outputs {
				leaves = append(leaves, refOutput(o))
			}
			if n < 65535 {
				_, err := iotago.OutputIDProofFromTransaction(tx, uint16(n))
				t.Check(err != nil, "output-proof:index-out-of-range", "a proof for output %d of %d", n, n)
			}
			for i := 0; i < n; i++ {
				if n > 12 && !coin(r, n/6) {
					continue
				}
				var p *iotago.OutputIDProof
				var err error
				if coin(r, 2) {
					p, err = iotago.OutputIDProofFromTransaction(tx, uint16(i))
				} else {
					p, err = iotago.NewOutputIDProof(w.API, tc, tx.CreationSlot, tx.Outputs, uint16(i))
				}
				if !t.Check(err == nil, "output-proof:refused", "output %d of %d: %v", i, n, err) {
					continue
				}
				want := refOutputID(txID, uint16(i))
				forms := map[string]*iotago.OutputIDProof{"direct": p}
				b, err := p.Bytes()
				wantB := (&enc{}).u32(uint32(tx.CreationSlot)).u16(uint16(i)).raw(tc[:]).raw(refProofOf(leaves, i)).b
				t.Check(err == nil && bytes.Equal(b, wantB), "output-proof:bytes", "Bytes gives %x (%v), expected %x", b, err, wantB)
				if d, cn, err := iotago.OutputIDProofFromBytes(w.API)(wantB); t.Check(err == nil && cn == len(wantB), "output-proof:decode", "OutputIDProofFromBytes: %d, %v", cn, err) {
					forms["binary"] = d
				}
				if js, err := w.API.JSONEncode(p); t.Check(err == nil, "output-proof:json", "%v", err) {
					d := new(iotago.OutputIDProof)
					if err := w.API.JSONDecode(js, d); t.Check(err == nil, "output-proof:json", "%v: %s", err, js) {
						forms["json"] = d
					}
				}
				for name, p := range forms {
					id, err := p.OutputID(tx.Outputs[i])
					t.Check(err == nil && id == want, "output-proof:id:"+name, "OutputID gives %s (%v), expected %s", id, err, want)
					k := r.Intn(n)
					if !bytes.Equal(leaves[k], leaves[i]) {
						id, err := p.OutputID(tx.Outputs[k])
						t.Check(err != nil, "output-proof:other-output", "the proof of output %d gives output %d the ID %s", i, k, id)
						t.Count("other outputs refused")
					}
					o := genOutput(r)
					if !bytes.Equal(refOutput(o), leaves[i]) {
						_, err := p.OutputID(o)
						t.Check(err != nil, "output-proof:foreign-output", "the proof gives a foreign output an ID")
					}
					t.Eval(fmt.Sprintf("outproof/%s/%d/%d/%T", name, n, i, tx.Outputs[i]))
					t.Count("output proofs verified")
				}
				// a proof with altered slot, commitment or index gives another ID
				q := *p
				switch r.Intn(3) {
				case 0:
					q.Slot ^= 1 << r.Intn(32)
				case 1:
					q.OutputIndex ^= 1 << r.Intn(16)
				case 2:
					q.TransactionCommitment[r.Intn(32)] ^= 1 << r.Intn(8)
				}
				id, err := q.OutputID(tx.Outputs[i])
				t.Check(err != nil || id != want, "output-proof:altered", "an altered proof gives the same output ID")
				q = *p
				leafHash := blake([]byte{0}, leaves[i])
				f := tamper[*iotago.APIByter[iotago.TxEssenceOutput]](r, p.OutputCommitmentProof.MerkleHashable, [][]byte{rbytes(r, 32), leafHash[:]})
				q.OutputCommitmentProof = &merklehasher.Proof[*iotago.APIByter[iotago.TxEssenceOutput]]{MerkleHashable: f}
				fr := refProofRoot[*iotago.APIByter[iotago.TxEssenceOutput]](f)
				id, err = q.OutputID(tx.Outputs[i])
				holds := refProofContains[*iotago.APIByter[iotago.TxEssenceOutput]](f, blake([]byte{0}, leaves[i]))
				wantID := refOutputID(slotID(blake(tc[:], fr), uint32(tx.CreationSlot)), uint16(i))
				t.Check((err == nil) == holds && (err != nil || id == wantID), "output-proof:forged", "altered proof: %s %v, expected holds=%v %s", id, err, holds, wantID)
			}
		})
	})
}
