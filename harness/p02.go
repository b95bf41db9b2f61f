package main

// P02: hostile input to every decoder.

import (
	"bytes"
	"crypto"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
	"strings"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/api"
	"github.com/iotaledger/iota.go/v4/bech32"
	"github.com/iotaledger/iota.go/v4/hexutil"
	"github.com/iotaledger/iota.go/v4/merklehasher"
)

// rawParser is a hand-written parser of bytes. delim tells that no proper prefix of a valid encoding is valid.
type rawParser struct {
	name  string
	gen   func(r *rand.Rand, w *World) []byte
	parse func(w *World, b []byte) (obj any, n int, err error)
	delim bool
}

func p3[T any](f func([]byte) (T, int, error)) func(*World, []byte) (any, int, error) {
	return func(_ *World, b []byte) (any, int, error) { x, n, err := f(b); return x, n, err }
}

func pr[T any](f func(*bytes.Reader) (T, error)) func(*World, []byte) (any, int, error) {
	return func(_ *World, b []byte) (any, int, error) {
		rd := bytes.NewReader(b)
		x, err := f(rd)

		return x, len(b) - rd.Len(), err
	}
}

func genN(n int) func(r *rand.Rand, w *World) []byte {
	return func(r *rand.Rand, _ *World) []byte { return rbytes(r, n) }
}

func genTyped(typ byte) func(r *rand.Rand, w *World) []byte {
	return func(r *rand.Rand, _ *World) []byte { return append([]byte{typ}, rbytes(r, 32)...) }
}

func genOutputIDProof(r *rand.Rand, w *World) (*iotago.OutputIDProof, *iotago.Transaction) {
	tx := genTx(r, w)
	p, err := iotago.OutputIDProofFromTransaction(tx, uint16(r.Intn(len(tx.Outputs))))
	if err != nil {
		panic(err)
	}

	return p, tx
}

func refOutputIDProof(p *iotago.OutputIDProof) []byte {
	e := &enc{}
	e.u32(uint32(p.Slot)).u16(p.OutputIndex).raw(p.TransactionCommitment[:]).raw(refProof(p.OutputCommitmentProof.MerkleHashable))

	return e.b
}

var rawParsers = []rawParser{
	{"Address", func(r *rand.Rand, _ *World) []byte { return refAddr(genAnyAddr(r)) }, p3(iotago.AddressFromBytes), true},
	{"AddressReader", func(r *rand.Rand, _ *World) []byte { return refAddr(genAnyAddr(r)) }, pr(func(rd *bytes.Reader) (iotago.Address, error) { return iotago.AddressFromReader(rd) }), true},
	{"MultiAddressReader", func(r *rand.Rand, _ *World) []byte { return refAddr(genMulti(r)) }, pr(func(rd *bytes.Reader) (iotago.Address, error) { return iotago.MultiAddressFromReader(rd) }), true},
	{"RestrictedAddressReader", func(r *rand.Rand, _ *World) []byte { return refAddr(genRestricted(r)) }, pr(func(rd *bytes.Reader) (iotago.Address, error) { return iotago.RestrictedAddressFromReader(rd) }), true},
	{"Ed25519AddressReader", genTyped(0), pr(func(rd *bytes.Reader) (*iotago.Ed25519Address, error) { return iotago.Ed25519AddressFromReader(rd) }), true},
	{"AccountAddressReader", genTyped(8), pr(func(rd *bytes.Reader) (*iotago.AccountAddress, error) { return iotago.AccountAddressFromReader(rd) }), true},
	{"AnchorAddressReader", genTyped(24), pr(func(rd *bytes.Reader) (*iotago.AnchorAddress, error) { return iotago.AnchorAddressFromReader(rd) }), true},
	{"NFTAddressReader", genTyped(16), pr(func(rd *bytes.Reader) (*iotago.NFTAddress, error) { return iotago.NFTAddressFromReader(rd) }), true},
	{"ImplicitAddressReader", genTyped(32), pr(func(rd *bytes.Reader) (*iotago.ImplicitAccountCreationAddress, error) {
		return iotago.ImplicitAccountCreationAddressFromReader(rd)
	}), true},
	{"AddressCapabilities", func(r *rand.Rand, _ *World) []byte {
		c := genCaps(r)

		return append([]byte{byte(len(c))}, c...)
	}, p3(iotago.AddressCapabilitiesBitMaskFromBytes), true},
	{"TransactionCapabilities", func(r *rand.Rand, _ *World) []byte {
		c := genTxCaps(r)

		return append([]byte{byte(len(c))}, c...)
	}, p3(iotago.TransactionCapabilitiesBitMaskFromBytes), true},
	{"BlockIssuerKey", func(r *rand.Rand, _ *World) []byte { return refBIKey(genBIKey(r)) }, p3(iotago.BlockIssuerKeyFromBytes), true},
	{"BlockIssuerKeyReader", func(r *rand.Rand, _ *World) []byte { return refBIKey(genBIKey(r)) }, pr(func(rd *bytes.Reader) (iotago.BlockIssuerKey, error) { return iotago.BlockIssuerKeyFromReader(rd) }), true},
	{"BlockIssuerKeysReader", func(r *rand.Rand, _ *World) []byte {
		f := genBlockIssuer(r)

		return refFeature(f)[5:]
	}, pr(func(rd *bytes.Reader) (iotago.BlockIssuerKeys, error) { return iotago.BlockIssuerKeysFromReader(rd) }), true},
	{"Ed25519PublicKeyHashBlockIssuerKey", genTyped(0), p3(iotago.Ed25519PublicKeyHashBlockIssuerKeyFromBytes), true},
	{"MultiAddressReference", genTyped(40), p3(iotago.MultiAddressReferenceFromBytes), true},
	{"EpochIndex", genN(4), p3(iotago.EpochIndexFromBytes), true},
	{"SlotIndex", genN(4), p3(iotago.SlotIndexFromBytes), true},
	{"Version", genN(1), p3(iotago.VersionFromBytes), true},
	{"AccountID", genN(32), p3(iotago.AccountIDFromBytes), true},
	{"AnchorID", genN(32), p3(iotago.AnchorIDFromBytes), true},
	{"Identifier", genN(32), p3(iotago.IdentifierFromBytes), true},
	{"BlockID", genN(36), p3(iotago.BlockIDFromBytes), true},
	{"CommitmentID", genN(36), p3(iotago.CommitmentIDFromBytes), true},
	{"TransactionID", genN(36), p3(iotago.TransactionIDFromBytes), true},
	{"SignedTransactionID", genN(36), p3(iotago.SignedTransactionIDFromBytes), true},
	{"OutputID", genN(38), p3(iotago.OutputIDFromBytes), true},
	{"ProtocolParameters", func(r *rand.Rand, _ *World) []byte { return refParams(genProtoParams(r)) }, p3(iotago.ProtocolParametersFromBytes), true},
	{"Block", func(r *rand.Rand, w *World) []byte { return refBlock(genValidBlock(r, w)) }, func(w *World, b []byte) (any, int, error) {
		x, n, err := iotago.BlockFromBytes(iotago.SingleVersionProvider(w.API))(b)

		return x, n, err
	}, true},
	{"Attestation", func(r *rand.Rand, w *World) []byte { return refAttestation(genAttestation(r, w)) }, func(w *World, b []byte) (any, int, error) {
		x, n, err := iotago.AttestationFromBytes(iotago.SingleVersionProvider(w.API))(b)

		return x, n, err
	}, true},
	{"BlockIdentifierFromBlockBytes", func(r *rand.Rand, w *World) []byte { return refBlock(genBlock(r, w)) }, func(w *World, b []byte) (any, int, error) {
		x, err := iotago.BlockIdentifierFromBlockBytes(b)

		return x, 0, err
	}, false},
	{"OutputIDProof", func(r *rand.Rand, w *World) []byte { p, _ := genOutputIDProof(r, w); return refOutputIDProof(p) }, func(w *World, b []byte) (any, int, error) {
		x, n, err := iotago.OutputIDProofFromBytes(w.API)(b)

		return x, n, err
	}, true},
	{"MerkleProof", func(r *rand.Rand, w *World) []byte {
		return refProof[iotago.Identifier](genMerkleProof(r).MerkleHashable)
	}, p3(merklehasher.ProofFromBytes[iotago.Identifier]), true},
	{"TransactionState", genN(1), p3(api.TransactionStateFromBytes), false},
	{"TransactionFailureReason", genN(1), p3(api.TransactionFailureReasonFromBytes), false},
}

type textParser struct {
	name  string
	gen   func(r *rand.Rand) string
	parse func(s string) error
}

func hexOf(n int) func(r *rand.Rand) string {
	return func(r *rand.Rand) string { return fmt.Sprintf("0x%x", rbytes(r, n)) }
}

func bareHexOf(n int) func(r *rand.Rand) string {
	return func(r *rand.Rand) string { return fmt.Sprintf("%x", rbytes(r, n)) }
}

func tp[T any](f func(string) (T, error)) func(string) error {
	return func(s string) error { _, err := f(s); return err }
}

func unmarshal[T any, P interface {
	*T
	UnmarshalText([]byte) error
}]() func(string) error {
	return func(s string) error { var x T; return P(&x).UnmarshalText([]byte(s)) }
}

var textParsers = []textParser{
	{"AccountIDFromHexString", hexOf(32), tp(iotago.AccountIDFromHexString)},
	{"AnchorIDFromHexString", hexOf(32), tp(iotago.AnchorIDFromHexString)},
	{"IdentifierFromHexString", hexOf(32), tp(iotago.IdentifierFromHexString)},
	{"BlockIDFromHexString", hexOf(36), tp(iotago.BlockIDFromHexString)},
	{"CommitmentIDFromHexString", hexOf(36), tp(iotago.CommitmentIDFromHexString)},
	{"TransactionIDFromHexString", hexOf(36), tp(iotago.TransactionIDFromHexString)},
	{"SignedTransactionIDFromHexString", hexOf(36), tp(iotago.SignedTransactionIDFromHexString)},
	{"OutputIDFromHexString", hexOf(38), tp(iotago.OutputIDFromHexString)},
	{"BlockIDsFromHexString", hexOf(36), func(s string) error { _, err := iotago.BlockIDsFromHexString([]string{s, s}); return err }},
	{"CommitmentIDsFromHexString", hexOf(36), func(s string) error { _, err := iotago.CommitmentIDsFromHexString([]string{s, s}); return err }},
	{"TransactionIDsFromHexString", hexOf(36), func(s string) error { _, err := iotago.TransactionIDsFromHexString([]string{s, s}); return err }},
	{"SignedTransactionIDsFromHexString", hexOf(36), func(s string) error { _, err := iotago.SignedTransactionIDsFromHexString([]string{s, s}); return err }},
	{"OutputIDsFromHexString", hexOf(38), func(s string) error { _, err := iotago.OutputIDsFromHexString([]string{s, s}); return err }},
	{"ParseImplicitAccountCreationAddressFromHexString", hexOf(32), tp(iotago.ParseImplicitAccountCreationAddressFromHexString)},
	{"UnmarshalText-BlockID", bareHexOf(36), unmarshal[iotago.BlockID]()},
	{"UnmarshalText-CommitmentID", bareHexOf(36), unmarshal[iotago.CommitmentID]()},
	{"UnmarshalText-TransactionID", bareHexOf(36), unmarshal[iotago.TransactionID]()},
	{"UnmarshalText-SignedTransactionID", bareHexOf(36), unmarshal[iotago.SignedTransactionID]()},
	{"UnmarshalText-OutputID", bareHexOf(38), unmarshal[iotago.OutputID]()},
	{"UnmarshalText-Identifier", bareHexOf(32), unmarshal[iotago.Identifier]()},
	{"UnmarshalText-AccountID", bareHexOf(32), unmarshal[iotago.AccountID]()},
	{"UnmarshalText-AnchorID", bareHexOf(32), unmarshal[iotago.AnchorID]()},
	{"OutputIDHex.SplitParts", hexOf(38), func(s string) error { _, _, err := iotago.OutputIDHex(s).SplitParts(); return err }},
	{"OutputIDHex.AsUTXOInput", hexOf(38), func(s string) error { _, err := iotago.OutputIDHex(s).AsUTXOInput(); return err }},
	{"HexOutputIDs.OutputIDs", hexOf(38), func(s string) error {
		_, err := iotago.HexOutputIDs{iotago.HexOutputID(s)}.OutputIDs()

		return err
	}},
	{"hexutil.DecodeHex", func(r *rand.Rand) string { return fmt.Sprintf("0x%x", rbytes(r, r.Intn(40))) }, tp(hexutil.DecodeHex)},
	{"hexutil.DecodeUint256", func(r *rand.Rand) string { return hexutil.EncodeUint256(rbig(r)) }, tp(hexutil.DecodeUint256)},
	{"hexutil.DecodeUint64", func(r *rand.Rand) string { return hexutil.EncodeUint64(ru64(r)) }, tp(hexutil.DecodeUint64)},
	{"ParseBech32", func(r *rand.Rand) string { return genAnyAddr(r).Bech32("iota") }, func(s string) error { _, _, err := iotago.ParseBech32(s); return err }},
	{"bech32.Decode", func(r *rand.Rand) string {
		s, _ := bech32.Encode("x1y", rbytes(r, r.Intn(46)))

		return s
	}, func(s string) error { _, _, err := bech32.Decode(s); return err }},
}

func mutateText(r *rand.Rand, s string) string {
	rs := []rune(s)
	for n := 1 + r.Intn(3); n > 0; n-- {
		i := 0
		if len(rs) > 0 {
			i = r.Intn(len(rs))
		}
		piece := []rune([]string{"0", "x", "0x", "1", "", "-", "+", "g", "F", "é", "K", "\x00", "\u2028", "ſ", "q", "Q", "_", " ", "\xff"}[r.Intn(19)])
		switch r.Intn(5) {
		case 0:
			rs = append(rs[:i:i], append(piece, rs[min(len(rs), i+1):]...)...)
		case 1:
			rs = append(rs[:i:i], append(piece, rs[i:]...)...)
		case 2:
			rs = append(rs[:i:i], rs[min(len(rs), i+1+r.Intn(6)):]...)
		case 3:
			rs = rs[:i]
		case 4:
			rs = append(rs, rs[i:]...)
		}
	}
	out := string(rs)
	if coin(r, 6) && len(out) > 0 {
		b := []byte(out)
		b[r.Intn(len(b))] = byte(r.Intn(256))
		out = string(b)
	}

	return out
}

// mutateJSON changes values somewhere in the document; every member stays there and keeps its JSON type (see known_findings.json).
func mutateJSON(r *rand.Rand, doc []byte) []byte {
	var x any
	dec := json.NewDecoder(bytes.NewReader(doc))
	dec.UseNumber()
	if dec.Decode(&x) != nil {
		return doc
	}
	// collect all positions
	type pos struct {
		get func() any
		set func(any)
	}
	var all []pos
	var walk func(v any, depth int)
	walk = func(v any, depth int) {
		switch v := v.(type) {
		case map[string]any:
			keys := make([]string, 0, len(v))
			for k := range v {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				k := k
				if k != "type" {
					all = append(all, pos{func() any { return v[k] }, func(n any) { v[k] = n }})
				}
				walk(v[k], depth+1)
			}
		case []any:
			for i := range v {
				i := i
				all = append(all, pos{func() any { return v[i] }, func(n any) { v[i] = n }})
				walk(v[i], depth+1)
			}
		}
	}
	walk(x, 0)
	if len(all) == 0 {
		return []byte([]string{"null", "{}", "[]", "\"\"", "0", "", "{", "true"}[r.Intn(8)])
	}
	for n := 1 + r.Intn(2); n > 0; n-- {
		p := all[r.Intn(len(all))]
		switch v := p.get().(type) {
		case nil:
		case bool:
			p.set(!v)
		case json.Number:
			p.set(json.Number([]string{"-1", "1e300", "0.5", "0", "18446744073709551616", fmt.Sprint(r.Intn(60)), fmt.Sprint(ru32(r)), "-0"}[r.Intn(8)]))
		case string:
			switch r.Intn(4) {
			case 0:
				p.set("0x" + fmt.Sprintf("%x", rbytes(r, r.Intn(70))))
			case 1:
				p.set(rascii(r, r.Intn(10)))
			default:
				p.set(mutateText(r, v))
			}
		case []any:
			switch i := r.Intn(3); {
			case len(v) == 0:
			case i == 0:
				p.set(v[1:])
			case i == 1:
				p.set(append(append([]any{}, v...), v[r.Intn(len(v))]))
			default:
				k := r.Intn(len(v))
				v[0], v[k] = v[k], v[0]
			}
		case map[string]any:
			// take over another object of the document
			if o, is := all[r.Intn(len(all))].get().(map[string]any); is && coin(r, 3) && fmt.Sprint(o["type"]) == fmt.Sprint(v["type"]) && sameKeys(o, v) {
				p.set(o)
			}
		}
	}
	out, err := json.Marshal(x)
	if err != nil {
		return doc
	}

	return out
}

// repeatsTypes tells whether a list of an output holds two elements of a type.
func repeatsTypes(o iotago.Output) bool {
	v := reflect.ValueOf(o).Elem()
	for _, name := range []string{"UnlockConditions", "Features", "ImmutableFeatures"} {
		l := v.FieldByName(name)
		if !l.IsValid() {
			continue
		}
		seen := map[string]bool{}
		for i := 0; i < l.Len(); i++ {
			ty := reflect.TypeOf(l.Index(i).Interface()).String()
			if seen[ty] {
				return true
			}
			seen[ty] = true
		}
	}

	return false
}

func sameKeys(a, b map[string]any) bool {
	for k := range a {
		if _, has := b[k]; !has {
			return false
		}
	}

	return len(a) == len(b)
}

// use calls the read-only methods of an accepted object; they all have to work.
func use(t *Case, w *World, obj any) {
	must := func(err error, what string) {
		t.Check(err == nil, "accepted-unusable:"+what, "%s of an accepted object failed: %v", what, err)
	}
	switch o := obj.(type) {
	case *iotago.MultiAddressReference: // not a full address
		_ = o.Key()
	case iotago.Address:
		_ = o.Key()
		_ = o.String()
		_ = o.Bech32("iota")
		t.Check(o.Size() == len(refAddr(o)), "accepted-size", "Size %d, encoded %d", o.Size(), len(refAddr(o)))
		t.Check(o.Equal(o.Clone()), "accepted-clone-differs:address", "clone differs")
		_ = o.StorageScore(w.API.StorageScoreStructure(), nil)
	case iotago.Output:
		if repeatsTypes(o) { // refused as part of a signed transaction, not on its own
			t.Count("outputs with repeated types accepted")

			return
		}
		_ = o.UnlockConditionSet()
		_ = o.FeatureSet()
		t.Check(o.Size() == len(refOutput(o)), "accepted-size", "Size %d, encoded %d", o.Size(), len(refOutput(o)))
		t.Check(o.Equal(o.Clone()), "accepted-clone-differs:output", "clone differs")
		_ = o.StorageScore(w.API.StorageScoreStructure(), nil)
		_, _ = o.WorkScore(w.PP.WorkScoreParameters())
		_, _ = w.API.StorageScoreStructure().MinDeposit(o)
		if c, is := o.(iotago.ChainOutput); is {
			_ = c.ChainID().ToHex()
		}
	case iotago.Unlock:
		_, _ = o.WorkScore(w.PP.WorkScoreParameters())
		t.Check(o.Size() == len(refUnlock(o)), "accepted-size", "Size %d, encoded %d", o.Size(), len(refUnlock(o)))
	case *iotago.Transaction:
		for _, out := range o.Outputs {
			if repeatsTypes(out) {
				return
			}
		}
		_, err := o.ID()
		must(err, "Transaction.ID")
		_, err = o.SigningMessage()
		must(err, "Transaction.SigningMessage")
		set, err := o.OutputsSet()
		must(err, "Transaction.OutputsSet")
		t.Check(len(set) == len(o.Outputs), "accepted-outputs-set", "%d outputs in set, %d outputs", len(set), len(o.Outputs))
		_ = o.Inputs()
		_ = o.CommitmentInput()
		_ = o.BICInputs()
		_ = o.RewardInputs()
		_ = o.String()
		_, _ = o.WorkScore(w.PP.WorkScoreParameters())
		t.Check(o.Size() == len(refTx(o)), "accepted-size", "Size %d, encoded %d", o.Size(), len(refTx(o)))
		o.Clone()
	case *iotago.SignedTransaction:
		_, err := o.ID()
		must(err, "SignedTransaction.ID")
		_ = o.String()
		_, _ = o.WorkScore(w.PP.WorkScoreParameters())
		o.Clone()
		use(t, w, o.Transaction)
	case *iotago.Block:
		_, err := o.ID()
		must(err, "Block.ID")
		_, err = o.SigningMessage()
		must(err, "Block.SigningMessage")
		_, _ = o.VerifySignature()
		_ = o.ParentsWithType()
		_ = o.Slot()
		_, _ = o.WorkScore()
		_, _ = o.ManaCost(1)
		t.Check(o.Size() == len(refBlock(o)), "accepted-size", "Size %d, encoded %d", o.Size(), len(refBlock(o)))
		if b, is := o.Body.(*iotago.BasicBlockBody); is {
			if tx, is := b.Payload.(*iotago.SignedTransaction); is {
				use(t, w, tx)
			}
		}
		att := iotago.NewAttestation(w.API, o)
		_, err = att.BlockID()
		must(err, "Attestation.BlockID")
	case *iotago.Attestation:
		_, err := o.BlockID()
		must(err, "Attestation.BlockID")
		_, _ = o.VerifySignature()
		t.Check(o.Compare(o) == 0, "attestation-compare", "an attestation does not compare equal to itself")
	case *iotago.Commitment:
		_, err := o.ID()
		must(err, "Commitment.ID")
		_ = o.String()
	case *iotago.Roots:
		_ = o.ID()
	case *merklehasher.Proof[iotago.Identifier]:
		_ = o.Hash(merklehasher.NewHasher[iotago.Identifier](crypto.BLAKE2b_256))
		_, err := o.Bytes()
		must(err, "Proof.Bytes")
	case *iotago.OutputIDProof:
		_, err := o.Bytes()
		must(err, "OutputIDProof.Bytes")
		_, _ = o.OutputID(&iotago.BasicOutput{})
	case iotago.ProtocolParameters:
		_, err := o.Hash()
		if len(o.NetworkName()) < 256 && len(o.Bech32HRP()) < 256 && len(o.ManaParameters().DecayFactors) < 1<<16 { // JSON can name what bytes cannot hold
			must(err, "ProtocolParameters.Hash")
		}
		_ = o.Equals(o)
	}
}

var jsonShapes = []struct{ name, doc string }{
	{"type-is-string", `{"type":"0","amount":"1","mana":"0","unlockConditions":[]}`},
	{"slice-is-number", `{"type":0,"amount":"1","mana":"0","unlockConditions":7}`},
	{"bytes-are-number", `{"type":0,"amount":"1","mana":"0","unlockConditions":[{"type":0,"address":{"type":0,"pubKeyHash":"0x0000000000000000000000000000000000000000000000000000000000000000"}}],"features":[{"type":4,"tag":7}]}`},
	{"array-is-number", `{"type":0,"amount":"1","mana":"0","unlockConditions":[{"type":0,"address":{"type":0,"pubKeyHash":7}}]}`},
	{"object-is-number", `7`},
	{"member-missing", `{"type":0,"amount":"1","mana":"0"}`},
}

func in2(x string, set ...string) bool {
	for _, s := range set {
		if s == x {
			return true
		}
	}

	return false
}

type nesting struct {
	name   string
	depths []int
	build  func(n int) []byte
	parse  func(b []byte) error
}

var nestings = []nesting{
	{"restricted", []int{1000}, func(n int) []byte { return bytes.Repeat([]byte{byte(iotago.AddressRestricted)}, n) },
		func(b []byte) error { _, _, err := iotago.AddressFromBytes(b); return err }},
	{"multi", []int{1000}, func(n int) []byte { return bytes.Repeat([]byte{byte(iotago.AddressMulti), 2}, n/2) },
		func(b []byte) error { _, _, err := iotago.AddressFromBytes(b); return err }},
	{"unlock", []int{1000}, func(n int) []byte { return bytes.Repeat([]byte{byte(iotago.UnlockMulti), 2}, n/2) },
		func(b []byte) error {
			_, _, err := decIntoPtr[iotago.MultiUnlock](worlds()[0], b, serix.WithValidation())
			return err
		}},
	{"unlock-json", []int{1000}, func(n int) []byte {
		return []byte(strings.Repeat(`{"type":5,"unlocks":[`, n/2) + strings.Repeat("]}", n/2))
	}, func(b []byte) error {
		_, err := decJInto[iotago.MultiUnlock](worlds()[0], b, serix.WithValidation())
		return err
	}},
	// up to the size of a stack
	{"reader-restricted", []int{2000, 40 << 20}, func(n int) []byte { return bytes.Repeat([]byte{byte(iotago.AddressRestricted)}, n) },
		func(b []byte) error { _, err := iotago.AddressFromReader(bytes.NewReader(b)); return err }},
	{"reader-multi", []int{2000, 40 << 20}, func(n int) []byte { return bytes.Repeat([]byte{byte(iotago.AddressMulti), 1}, n/2) },
		func(b []byte) error { _, err := iotago.AddressFromReader(bytes.NewReader(b)); return err }},
	{"reader-mixed", []int{2000, 40 << 20}, func(n int) []byte {
		return bytes.Repeat([]byte{byte(iotago.AddressRestricted), byte(iotago.AddressMulti), 1}, n/3)
	}, func(b []byte) error { _, err := iotago.AddressFromReader(bytes.NewReader(b)); return err }},
	{"reader-RestrictedAddress", []int{2000, 40 << 20}, func(n int) []byte { return bytes.Repeat([]byte{byte(iotago.AddressRestricted)}, n) },
		func(b []byte) error { _, err := iotago.RestrictedAddressFromReader(bytes.NewReader(b)); return err }},
	{"reader-MultiAddress", []int{2000, 40 << 20}, func(n int) []byte { return bytes.Repeat([]byte{byte(iotago.AddressMulti), 1}, n/2) },
		func(b []byte) error { _, err := iotago.MultiAddressFromReader(bytes.NewReader(b)); return err }},
}

func measureAlloc(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)

	return b.TotalAlloc - a.TotalAlloc
}

func init() {
	register("P02", func(c *Ctx) {
		c.Rule("Every decoder (serix kinds with and without validation, JSON, hand-written byte parsers and readers, hex, bech32 and text parsers) is fed random bytes, mutated valid encodings, all proper prefixes of valid encodings and JSON documents with hostile values. Observed: panics, reported consumption beyond the input, acceptance of truncated encodings, unusable accepted objects (identifier, size, scores, clone ...), and bytes allocated (measured serially) in relation to the input. Distinct keys: decoder, outcome and shape of the input.")
		for _, k := range kinds {
			k := k
			if k.name == "merkle-proof" {
				continue // among the raw parsers
			}
			c.Run("bytes/"+k.name, c.N(1500, 60000), func(t *Case) {
				w := pickWorld(t.R)
				in := rbytes(t.R, t.R.Intn(200))
				if !coin(t.R, 6) {
					in = mutateBytes(t.R, k.ref(k.gen(t.R, w)))
				} else if len(in) > 0 && coin(t.R, 2) {
					in[0] = byte(t.R.Intn(8))
				}
				t.Note("world %s input %x", w.Name, in)
				if declaredDataLen(k.name, in) > 1<<20 {
					return
				}
				obj, n, err := k.dec(w, in, serix.WithValidation())
				if err == nil {
					t.Check(n <= len(in) && n >= 0, "consumed:"+k.name, "consumed %d of %d", n, len(in))
					use(t, w, obj)
				}
				t.Eval(fmt.Sprintf("%s:%v:%s", k.name, err == nil, shape(in)))
				if k.name != "unlock" { // an unlock is only ever decoded as part of a signed transaction
					_, n, err = k.dec(w, in)
					t.Check(err != nil || (n <= len(in) && n >= 0), "consumed:"+k.name, "consumed %d of %d (no validation)", n, len(in))
				}
			})
			c.Run("prefix/"+k.name, c.N(25, 1500), func(t *Case) {
				w := pickWorld(t.R)
				in := k.ref(k.gen(t.R, w))
				step := 1 + len(in)/300
				for i := t.R.Intn(step); i < len(in); i += step {
					obj, n, err := k.dec(w, in[:i:i], serix.WithValidation())
					if !t.Check(err != nil, "truncated-accepted:"+k.name, "a truncated encoding was accepted (%d of %d bytes, consumed %d): %x -> %v", i, len(in), n, in, obj) {
						break
					}
				}
				t.Eval("prefix:" + k.name + ":" + shape(in))
			})
			if k.decJ != nil {
				c.Run("json/"+k.name, c.N(1200, 40000), func(t *Case) {
					w := pickWorld(t.R)
					obj := k.gen(t.R, w)
					doc, err := jsonEncodeKind(k, w, obj)
					if err != nil {
						t.Violate("json-encode:"+k.name, "%v", err)

						return
					}
					in := mutateJSON(t.R, doc)
					t.Note("world %s input %s", w.Name, in)
					x, err := k.decJ(w, in, serix.WithValidation())
					t.Eval(fmt.Sprintf("json:%s:%v:%d", k.name, err == nil, len(in)))
					if err == nil {
						t.Count("mutated JSON accepted")
						if k.name != "output" && k.name != "transaction" && k.name != "transaction-valid" { // their order rules are checked by the enclosing signed transaction
							use(t, w, x)
						}
					}
				})
			}
		}
		for _, p := range rawParsers {
			p := p
			c.Run("raw/"+p.name, c.N(1500, 60000), func(t *Case) {
				w := pickWorld(t.R)
				valid := p.gen(t.R, w)
				t.Note("world %s valid %x", w.Name, valid)
				if p.delim {
					trail := append(append([]byte{}, valid...), rbytes(t.R, t.R.Intn(5))...)
					obj, n, err := p.parse(w, trail)
					if t.Check(err == nil, "valid-rejected:"+p.name, "a valid encoding is rejected: %v", err) {
						t.Check(n == len(valid), "valid-consumed:"+p.name, "consumed %d of %d bytes", n, len(valid))
						use(t, w, obj)
					}
					if len(valid) > 0 {
						i := t.R.Intn(len(valid))
						if coin(t.R, 3) {
							i = len(valid) - 1
						}
						_, _, err = p.parse(w, valid[:i:i])
						t.Check(err != nil, "truncated-accepted:"+p.name, "%d of %d bytes are accepted", i, len(valid))
					}
				}
				in := mutateBytes(t.R, valid)
				if coin(t.R, 5) {
					in = rbytes(t.R, t.R.Intn(90))
				}
				t.Note("input %x", in)
				if p.name == "Block" && declaredDataLen("block", in) > 1<<20 {
					return
				}
				obj, n, err := p.parse(w, in)
				t.Eval(fmt.Sprintf("raw:%s:%v:%s", p.name, err == nil, shape(in)))
				if err == nil {
					t.Check(n <= len(in) && n >= 0, "consumed:"+p.name, "consumed %d of %d", n, len(in))
					use(t, w, obj)
				}
			})
		}
		for _, p := range textParsers {
			p := p
			c.Run("text/"+p.name, c.N(1500, 60000), func(t *Case) {
				s := p.gen(t.R)
				t.Note("valid %q", s)
				err := p.parse(s)
				t.Check(err == nil, "valid-text-rejected:"+p.name, "valid text is rejected: %v", err)
				m := mutateText(t.R, s)
				t.Note("input %q", m)
				err = p.parse(m)
				t.Eval(fmt.Sprintf("text:%s:%v:%s", p.name, err == nil, m))
				if strings.HasPrefix(p.name, "hexutil") || p.name == "bech32.Decode" || p.name == "ParseBech32" {
					return
				}
				// the IDs have a fixed length
				if err == nil {
					t.Check(len(m) == len(s) && (strings.HasPrefix(m, "0x") || strings.HasPrefix(p.name, "Unmarshal")), "text-accepted:"+p.name, "accepted %q", m)
				}
			})
		}
		// deeply nested Merkle proofs
		c.RunSerial("nested-proof", c.N(10, 100), func(t *Case) {
			depth := 1 + t.R.Intn(2500)
			b := bytes.Repeat([]byte{0}, depth)
			t.Note("%d nested nodes", depth)
			_, _, err := merklehasher.ProofFromBytes[iotago.Identifier](b)
			t.Check(err != nil, "truncated-accepted:nested-proof", "a truncated proof is accepted")
			t.Eval(fmt.Sprint("nested", depth))
		})
		// length fields which promise more than there is
		c.RunSerial("alloc/length-fields", c.N(500, 8000), func(t *Case) {
			w := pickWorld(t.R)
			k := kinds[t.R.Intn(len(kinds))]
			valid := refKind(k, k.gen(t.R, w))
			in := append([]byte{}, valid...)
			if len(in) < 4 {
				return
			}
			for try := 0; try < 3; try++ {
				i := t.R.Intn(len(in) - 3)
				v := []uint32{0xffffffff, 0x7fffffff, 0x00ffffff, 0x0fffffff}[t.R.Intn(4)]
				if coin(t.R, 2) {
					in[i], in[i+1] = 0xff, 0xff
				} else {
					binary.LittleEndian.PutUint32(in[i:], v)
				}
			}
			in = in[:len(in)-t.R.Intn(len(in)/2+1)]
			if declaredDataLen(k.name, in) > 1<<20 {
				return
			}
			t.Note("%s input %x", k.name, in)
			n := measureAlloc(func() { _, _, _ = k.dec(w, in, serix.WithValidation()) })
			t.Add("bytes allocated", int64(n))
			t.Check(n < 4<<20+uint64(len(in))*2000, "alloc:"+k.name, "%d bytes allocated for %d bytes of input", n, len(in))
			t.Eval("alloc:" + k.name + ":" + shape(in))
		})
		// addresses and unlocks nested in one another: only a few levels are allowed, so the cost must not grow with the depth
		c.RunSerial("alloc/nested", len(nestings), func(t *Case) {
			x := nestings[t.Index]
			for _, n := range x.depths {
				in := x.build(n)
				t.Note("%s, %d levels", x.name, n)
				var err error
				alloc := measureAlloc(func() { err = x.parse(in) })
				t.Eval(fmt.Sprintf("nested:%s:%d", x.name, n))
				if !t.Check(err != nil, "nested-accepted:"+x.name, "%d levels are accepted", n) ||
					!t.Check(alloc < 2<<20+uint64(len(in))*4, "alloc:nested-"+x.name, "%d bytes allocated for %d nested levels in %d bytes", alloc, n, len(in)) {
					return
				}
			}
		})
		// JSON documents whose members have another JSON type or are missing
		c.RunSerial("json-shape", len(jsonShapes), func(t *Case) {
			x := jsonShapes[t.Index]
			t.Eval("json-shape:" + x.name)
			defer func() {
				if r := recover(); r != nil {
					t.Violate("json-shape:"+x.name, "panic: %v", r)
				}
			}()
			o, err := decJInto[iotago.TxEssenceOutput](worlds()[0], []byte(x.doc), serix.WithValidation())
			t.Check(err != nil, "json-shape:"+x.name, "accepted as %+v", o)
		})
		c.RunSerial("alloc/tagged-data", 1, func(t *Case) {
			for _, l := range []uint32{32 << 20, 256 << 20} {
				e := &enc{}
				e.u8(0).u8(0).u32(l)
				n := measureAlloc(func() {
					_, _, err := decIntoPtr[iotago.TaggedData](worlds()[0], e.b, serix.WithValidation())
					t.Check(err != nil, "truncated-accepted:tagged-data", "accepted")
				})
				t.Check(n < 1<<20, "alloc:tagged-data-length", "%d bytes allocated for an input of %d bytes which declares %d bytes of data", n, len(e.b), l)
				t.Eval(fmt.Sprint("tagged-data", l))
			}
		})
	})
}
