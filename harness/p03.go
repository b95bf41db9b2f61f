package main

import (
	"fmt"
	"reflect"

	iotago "github.com/iotaledger/iota.go/v4"
)

type sizer interface{ Size() int }

// refPart is the wire form of any part of a protocol object.
func refPart(x any) ([]byte, bool) {
	switch x := x.(type) {
	case *iotago.MultiAddressReference:
		return nil, false
	case iotago.Address:
		return refAddr(x), true
	case *iotago.AddressWithWeight:
		return append(refAddr(x.Address), x.Weight), true
	case iotago.Feature:
		return refFeature(x), true
	case iotago.UnlockCondition:
		return refUC(x), true
	case iotago.Output:
		return refOutput(x), true
	case iotago.Unlock:
		return refUnlock(x), true
	case iotago.Signature:
		return refSig(x), true
	case *iotago.CommitmentInput, *iotago.BlockIssuanceCreditInput, *iotago.RewardInput:
		return refContextInput(x), true
	case *iotago.Allotment:
		e := &enc{}

		return e.raw(x.AccountID[:]).u64(uint64(x.Mana)).b, true
	case *iotago.UTXOInput:
		e := &enc{}

		return e.u8(0).raw(x.TransactionID[:]).u16(x.TransactionOutputIndex).b, true
	case iotago.TxEssenceInputs:
		e := (&enc{}).u16(uint16(len(x)))
		for _, i := range x {
			b, _ := refPart(i)
			e.raw(b)
		}

		return e.b, true
	case iotago.TxEssenceContextInputs:
		e := (&enc{}).u16(uint16(len(x)))
		for _, c := range x {
			e.raw(refContextInput(c))
		}

		return e.b, true
	case iotago.TxEssenceOutputs:
		return refOutputs(x), true
	case iotago.Allotments:
		e := (&enc{}).u16(uint16(len(x)))
		for _, a := range x {
			e.raw(a.AccountID[:]).u64(uint64(a.Mana))
		}

		return e.b, true
	case iotago.Unlocks:
		return refUnlocks(x), true
	case iotago.BlockIssuerKeys:
		e := (&enc{}).u8(uint8(len(x)))
		for _, k := range x {
			e.raw(refBIKey(k))
		}

		return e.b, true
	case *iotago.Ed25519PublicKeyHashBlockIssuerKey:
		return refBIKey(x), true
	case iotago.AddressCapabilitiesBitMask:
		return append([]byte{uint8(len(x))}, x...), true
	case iotago.TransactionCapabilitiesBitMask:
		return append([]byte{uint8(len(x))}, x...), true
	case *iotago.SimpleTokenScheme:
		e := &enc{}

		return e.u8(0).u256(x.MintedTokens).u256(x.MeltedTokens).u256(x.MaximumSupply).b, true
	case *iotago.TransactionEssence:
		return refEssence(x), true
	case *iotago.Transaction:
		return refTx(x), true
	case *iotago.SignedTransaction:
		return refSignedTx(x), true
	case *iotago.TaggedData, *iotago.CandidacyAnnouncement:
		return refPayload(x), true
	case *iotago.BlockHeader:
		return refHeader(x), true
	case iotago.BlockBody:
		return refBody(x), true
	case *iotago.Block:
		return refBlock(x), true
	case *iotago.Commitment:
		return refCommitment(x), true
	case iotago.BasicOutputUnlockConditions:
		return refUCs(&enc{}, x).b, true
	case iotago.AccountOutputUnlockConditions:
		return refUCs(&enc{}, x).b, true
	case iotago.AnchorOutputUnlockConditions:
		return refUCs(&enc{}, x).b, true
	case iotago.FoundryOutputUnlockConditions:
		return refUCs(&enc{}, x).b, true
	case iotago.NFTOutputUnlockConditions:
		return refUCs(&enc{}, x).b, true
	case iotago.DelegationOutputUnlockConditions:
		return refUCs(&enc{}, x).b, true
	case iotago.BasicOutputFeatures:
		return refFeats(&enc{}, x).b, true
	case iotago.AccountOutputFeatures:
		return refFeats(&enc{}, x).b, true
	case iotago.AccountOutputImmFeatures:
		return refFeats(&enc{}, x).b, true
	case iotago.AnchorOutputFeatures:
		return refFeats(&enc{}, x).b, true
	case iotago.AnchorOutputImmFeatures:
		return refFeats(&enc{}, x).b, true
	case iotago.FoundryOutputFeatures:
		return refFeats(&enc{}, x).b, true
	case iotago.FoundryOutputImmFeatures:
		return refFeats(&enc{}, x).b, true
	case iotago.NFTOutputFeatures:
		return refFeats(&enc{}, x).b, true
	case iotago.NFTOutputImmFeatures:
		return refFeats(&enc{}, x).b, true
	}

	return nil, false
}

func init() {
	register("P03", func(c *Ctx) {
		c.Rule("For random objects of every serializable kind (addresses up to transactions and blocks, with extreme lengths and counts), Size() of the object and of every part reachable from it is compared with the length of the reference encoding of that part; the codec's own encoding of the object must have that length as well. Decoded objects are treated the same way. Distinct keys are type and length.")
		for _, k := range kinds {
			k := k
			c.Run("size/"+k.name, c.N(1500, 60000), func(t *Case) { p03Case(t, k) })
		}
	})
}

func p03Case(t *Case, k *kind) {
	w := pickWorld(t.R)
	obj := k.gen(t.R, w)
	check := func(obj any) {
		visit(reflect.ValueOf(obj), func(x any) {
			s, is := x.(sizer)
			if !is {
				return
			}
			wantBytes, known := refPart(x)
			want := len(wantBytes)
			if !known {
				t.Count("types without reference: " + fmt.Sprintf("%T", x))

				return
			}
			name := fmt.Sprintf("%T", x)
			got := s.Size()
			t.Check(got == want, "size:"+name, "%s: Size() is %d, the encoding has %d bytes", name, got, want)
			t.Eval(fmt.Sprintf("%s:%d", name, want))
			if _, ok := x.(sizer); ok {
				t.Count("size " + name)
			}
		})
	}
	want := refKind(k, obj)
	t.Note("world %s, reference encoding %x", w.Name, want)
	check(obj)
	got, err := encodeKind(k, w, obj)
	if t.Check(err == nil, "encode-error:"+k.name, "encoding failed: %v", err) {
		t.Check(len(got) == len(want), "encoded-length:"+k.name, "encoded %d bytes, reference %d bytes", len(got), len(want))
	}
	dec, n, err := k.dec(w, want)
	if t.Check(err == nil, "decode-error:"+k.name, "decoding failed: %v", err) {
		t.Check(n == len(want), "consumed:"+k.name, "consumed %d of %d bytes", n, len(want))
		check(dec)
	}
	t.Sample(map[string]any{"kind": k.name, "length": len(want)})
}
