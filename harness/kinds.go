package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/merklehasher"
)

// kind describes a serializable protocol object: how to generate, reference-encode and decode it.
type kind struct {
	name  string
	gen   func(r *rand.Rand, w *World) any
	ref   func(any) []byte
	valid bool // the generated objects satisfy all rules which are checked when they are deserialized with validation
	dec   func(w *World, b []byte, opts ...serix.Option) (any, int, error)
	decJ  func(w *World, j []byte, opts ...serix.Option) (any, error)
}

type codec interface {
	Encode(obj any, opts ...serix.Option) ([]byte, error)
	JSONEncode(obj any, opts ...serix.Option) ([]byte, error)
}

func decInto[T any](w *World, b []byte, opts ...serix.Option) (any, int, error) {
	var x T
	n, err := w.API.Decode(b, &x, opts...)

	return x, n, err
}

func decIntoPtr[T any](w *World, b []byte, opts ...serix.Option) (any, int, error) {
	x := new(T)
	n, err := w.API.Decode(b, x, opts...)

	return x, n, err
}

func decJInto[T any](w *World, j []byte, opts ...serix.Option) (any, error) {
	var x T
	err := w.API.JSONDecode(j, &x, opts...)

	return x, err
}

func decJIntoPtr[T any](w *World, j []byte, opts ...serix.Option) (any, error) {
	x := new(T)
	err := w.API.JSONDecode(j, x, opts...)

	return x, err
}

// refBlockIDs is the stand-alone form of a list of block IDs: the length is an uint32.
func refBlockIDs(ids iotago.BlockIDs) []byte {
	e := &enc{}
	e.u32(uint32(len(ids)))
	for _, id := range ids {
		e.raw(id[:])
	}

	return e.b
}

var kinds = []*kind{
	{"address", func(r *rand.Rand, w *World) any { return genAnyAddr(r) }, func(x any) []byte { return refAddr(x.(iotago.Address)) }, true, decInto[iotago.Address], decJInto[iotago.Address]},
	{"output", func(r *rand.Rand, w *World) any { return genOutput(r) }, func(x any) []byte { return refOutput(x.(iotago.Output)) }, true, decInto[iotago.TxEssenceOutput], decJInto[iotago.TxEssenceOutput]},
	{"unlock", func(r *rand.Rand, w *World) any { return genUnlock(r, false) }, func(x any) []byte { return refUnlock(x.(iotago.Unlock)) }, true, decInto[iotago.Unlock], decJInto[iotago.Unlock]},
	{"signature", func(r *rand.Rand, w *World) any { return genSignature(r) }, func(x any) []byte { return refSig(x.(iotago.Signature)) }, true, decInto[iotago.Signature], decJInto[iotago.Signature]},
	{"tagged-data", func(r *rand.Rand, w *World) any { return genTaggedData(r) }, func(x any) []byte { return refPayload(x) }, true, decIntoPtr[iotago.TaggedData], decJIntoPtr[iotago.TaggedData]},
	{"transaction", func(r *rand.Rand, w *World) any { return genTx(r, w) }, func(x any) []byte { return refTx(x.(*iotago.Transaction)) }, true, decIntoPtr[iotago.Transaction], decJIntoPtr[iotago.Transaction]},
	{"transaction-valid", func(r *rand.Rand, w *World) any { return genValidTx(r, w) }, func(x any) []byte { return refTx(x.(*iotago.Transaction)) }, true, decIntoPtr[iotago.Transaction], decJIntoPtr[iotago.Transaction]},
	{"signed-transaction", func(r *rand.Rand, w *World) any { return genSignedTx(r, w) }, func(x any) []byte { return refSignedTx(x.(*iotago.SignedTransaction)) }, false, decIntoPtr[iotago.SignedTransaction], decJIntoPtr[iotago.SignedTransaction]},
	{"signed-transaction-valid", func(r *rand.Rand, w *World) any { return genValidSignedTx(r, w) }, func(x any) []byte { return refSignedTx(x.(*iotago.SignedTransaction)) }, true, decIntoPtr[iotago.SignedTransaction], decJIntoPtr[iotago.SignedTransaction]},
	{"block", func(r *rand.Rand, w *World) any { return genBlock(r, w) }, func(x any) []byte { return refBlock(x.(*iotago.Block)) }, false, decIntoPtr[iotago.Block], decJIntoPtr[iotago.Block]},
	{"block-valid", func(r *rand.Rand, w *World) any { return genValidBlock(r, w) }, func(x any) []byte { return refBlock(x.(*iotago.Block)) }, true, decIntoPtr[iotago.Block], decJIntoPtr[iotago.Block]},
	{"commitment", func(r *rand.Rand, w *World) any { return genCommitment(r) }, func(x any) []byte { return refCommitment(x.(*iotago.Commitment)) }, true, decIntoPtr[iotago.Commitment], decJIntoPtr[iotago.Commitment]},
	{"roots", func(r *rand.Rand, w *World) any { return genRoots(r) }, func(x any) []byte { return refRoots(x.(*iotago.Roots)) }, true, decIntoPtr[iotago.Roots], decJIntoPtr[iotago.Roots]},
	{"attestation", func(r *rand.Rand, w *World) any { return genAttestation(r, w) }, func(x any) []byte { return refAttestation(x.(*iotago.Attestation)) }, true, decIntoPtr[iotago.Attestation], decJIntoPtr[iotago.Attestation]},
	{"block-ids", func(r *rand.Rand, w *World) any { return genBlockIDs(r, 0, 9) }, func(x any) []byte { return refBlockIDs(x.(iotago.BlockIDs)) }, true, decInto[iotago.BlockIDs], nil},
	{"protocol-parameters", func(r *rand.Rand, w *World) any { return genProtoParams(r) }, func(x any) []byte { return refParams(x.(*iotago.V3ProtocolParameters)) }, true,
		func(w *World, b []byte, opts ...serix.Option) (any, int, error) {
			var pp iotago.ProtocolParameters
			n, err := iotago.CommonSerixAPI().Decode(context.Background(), b, &pp, opts...)

			return pp, n, err
		},
		func(w *World, j []byte, opts ...serix.Option) (any, error) {
			var pp iotago.ProtocolParameters
			err := iotago.CommonSerixAPI().JSONDecode(context.Background(), j, &pp, opts...)

			return pp, err
		}},
	{"merkle-proof", func(r *rand.Rand, w *World) any { return genMerkleProof(r) }, func(x any) []byte { b, _ := x.(*merklehasher.Proof[iotago.Identifier]).Bytes(); return b }, true,
		func(w *World, b []byte, _ ...serix.Option) (any, int, error) {
			return merklehasherProofFromBytes(b)
		}, func(w *World, j []byte, _ ...serix.Option) (any, error) { return merklehasherProofFromJSON(j) }},
}

// encodeKind encodes with the codec under test.
func encodeKind(k *kind, w *World, obj any, opts ...serix.Option) ([]byte, error) {
	switch k.name {
	case "protocol-parameters":
		return iotago.CommonSerixAPI().Encode(context.Background(), obj, opts...)
	case "merkle-proof":
		return obj.(*merklehasher.Proof[iotago.Identifier]).Bytes()
	}

	return w.API.Encode(obj, opts...)
}

func jsonEncodeKind(k *kind, w *World, obj any, opts ...serix.Option) ([]byte, error) {
	switch k.name {
	case "protocol-parameters":
		return iotago.CommonSerixAPI().JSONEncode(context.Background(), obj, opts...)
	case "merkle-proof":
		return obj.(*merklehasher.Proof[iotago.Identifier]).JSONEncode()
	}

	return w.API.JSONEncode(obj, opts...)
}

func sameBytes(a, b []byte) string {
	if bytes.Equal(a, b) {
		return ""
	}
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}

	return fmt.Sprintf("first difference at byte %d (lengths %d, %d)\n  got  %x\n  want %x", i, len(a), len(b), a, b)
}
