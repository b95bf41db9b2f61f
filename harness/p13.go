package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
)

func init() { register("P13", p13) }

type txMut struct {
	name string
	f    func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool
}

func swap(v reflect.Value, i, j int) {
	a, b := v.Index(i).Interface(), v.Index(j).Interface()
	v.Index(i).Set(reflect.ValueOf(b))
	v.Index(j).Set(reflect.ValueOf(a))
}

func pickOut[T any](r *rand.Rand, tx *iotago.Transaction) (t T, ok bool) {
	for _, i := range r.Perm(len(tx.Outputs)) {
		if x, is := any(tx.Outputs[i]).(T); is {
			return x, true
		}
	}

	return t, false
}

// addOut appends a valid output of the given type to the transaction.
func addOut(r *rand.Rand, w *World, tx *iotago.Transaction, typ iotago.OutputType) (iotago.TxEssenceOutput, bool) {
	if len(tx.Outputs) >= 128 {
		return nil, false
	}
	tokens, mana := uint64(w.PP.TokenSupply()), uint64(1)<<w.PP.ManaParameters().BitsCount-1
	for _, o := range tx.Outputs {
		tokens -= min(tokens, refAmount(o))
		mana -= min(mana, refStoredMana(o))
	}
	for try := 0; try < 10; try++ {
		o := genOutputType(r, typ)
		a, b := tokens, mana
		if !repairOutput(r, w, o, &a, &b) {
			continue
		}
		tx.Outputs = append(tx.Outputs, o)
		if refTxSyntactic(w, tx) == "" && refOutputStruct(o) == "" {
			return o, true
		}
		tx.Outputs = tx.Outputs[:len(tx.Outputs)-1]
	}

	return nil, false
}

// getOut finds or adds an output of type T.
func getOut[T iotago.TxEssenceOutput](r *rand.Rand, w *World, tx *iotago.Transaction, typ iotago.OutputType) (t T, ok bool) {
	if t, ok = pickOut[T](r, tx); ok {
		return t, true
	}
	if _, is := addOut(r, w, tx, typ); !is {
		return t, false
	}

	return pickOut[T](r, tx)
}

func findUC[T iotago.UnlockCondition](r *rand.Rand, tx *iotago.Transaction) (o iotago.Output, u T, ok bool) {
	for _, i := range r.Perm(len(tx.Outputs)) {
		for _, x := range refUCList(tx.Outputs[i]) {
			if t, is := x.(T); is {
				return tx.Outputs[i], t, true
			}
		}
	}

	return nil, u, false
}

func findFeat[T iotago.Feature](r *rand.Rand, tx *iotago.Transaction) (o iotago.Output, u T, ok bool) {
	for _, i := range r.Perm(len(tx.Outputs)) {
		f, m := refFeatList(tx.Outputs[i])
		for _, x := range append(append([]iotago.Feature{}, f...), m...) {
			if t, is := x.(T); is {
				return tx.Outputs[i], t, true
			}
		}
	}

	return nil, u, false
}

func setMapSize[K ~string, V ~[]byte](m map[K]V, n int) bool {
	for k := range m {
		delete(m, k)
	}
	m["a"] = make(V, 10)
	d := n - refMapSize(m)
	if d < 0 {
		return false
	}
	m["a"] = make(V, 10+d)

	return refMapSize(m) == n
}

var txMuts = []txMut{
	{"none", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool { return true }},
	{"network", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		s.Transaction.TransactionEssence.NetworkID ^= 1 << uint(r.Intn(64))

		return true
	}},
	{"creation-slot", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		s.Transaction.CreationSlot = iotago.SlotIndex(ru32(r))

		return true
	}},
	{"amount", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		o := s.Transaction.Outputs[r.Intn(len(s.Transaction.Outputs))]
		min := refMinDeposit(w.PP.StorageScoreParameters(), o).Uint64()
		refSetAmount(o, []uint64{0, 1, min - 1, min, min + 1, uint64(w.PP.TokenSupply()), uint64(w.PP.TokenSupply()) + 1, 1<<64 - 1, 1 << 63}[r.Intn(9)])

		return true
	}},
	{"supply", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		sum := new(big.Int)
		k := r.Intn(len(s.Transaction.Outputs))
		for i, o := range s.Transaction.Outputs {
			if i != k {
				sum.Add(sum, bi(refAmount(o)))
			}
		}
		rest := new(big.Int).Sub(bi(uint64(w.PP.TokenSupply())), sum)
		rest.Add(rest, big.NewInt(int64(r.Intn(3)-1)))
		if rest.Sign() <= 0 {
			return false
		}
		refSetAmount(s.Transaction.Outputs[k], rest.Uint64())

		return true
	}},
	{"mana", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		sum := new(big.Int)
		k := r.Intn(len(s.Transaction.Outputs))
		for i, o := range s.Transaction.Outputs {
			if i != k {
				sum.Add(sum, bi(refStoredMana(o)))
			}
		}
		max := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w.PP.ManaParameters().BitsCount)), big.NewInt(1))
		rest := max.Sub(max, sum)
		rest.Add(rest, big.NewInt(int64(r.Intn(3)-1)))
		if rest.Sign() < 0 {
			return false
		}
		refSetMana(s.Transaction.Outputs[k], []uint64{rest.Uint64(), rest.Uint64(), 1 << 63, 1<<64 - 1}[r.Intn(4)])

		return true
	}},
	{"allotment-mana", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		e := s.Transaction.TransactionEssence
		if len(e.Allotments) == 0 {
			e.Allotments = iotago.Allotments{{AccountID: r32(r)}}
		}
		sum := new(big.Int)
		k := r.Intn(len(e.Allotments))
		for i, a := range e.Allotments {
			if i != k {
				sum.Add(sum, bi(uint64(a.Mana)))
			}
		}
		max := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w.PP.ManaParameters().BitsCount)), big.NewInt(1))
		max.Sub(max, sum).Add(max, big.NewInt(int64(r.Intn(3)-1)))
		if max.Sign() < 0 {
			return false
		}
		e.Allotments[k].Mana = iotago.Mana([]uint64{max.Uint64(), max.Uint64(), 1<<64 - 1}[r.Intn(3)])

		return true
	}},
	{"allotment-order", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		e := s.Transaction.TransactionEssence
		for len(e.Allotments) < 2+r.Intn(2) {
			e.Allotments = append(e.Allotments, &iotago.Allotment{AccountID: r32(r)})
		}
		sort.Slice(e.Allotments, func(i, j int) bool {
			return string(e.Allotments[i].AccountID[:]) < string(e.Allotments[j].AccountID[:])
		})
		i := r.Intn(len(e.Allotments) - 1)
		switch r.Intn(3) {
		case 0:
			e.Allotments[i], e.Allotments[i+1] = e.Allotments[i+1], e.Allotments[i]
		case 1:
			e.Allotments[i+1] = &iotago.Allotment{AccountID: e.Allotments[i].AccountID, Mana: iotago.Mana(r.Intn(3))}
		}

		return true
	}},
	{"input-duplicate", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		e := s.Transaction.TransactionEssence
		if len(e.Inputs) < 2 {
			return false
		}
		i, j := r.Intn(len(e.Inputs)), r.Intn(len(e.Inputs))
		x := *e.Inputs[i].(*iotago.UTXOInput)
		if i == j {
			return false
		}
		if r.Intn(3) == 0 {
			x.TransactionOutputIndex ^= 1
		} else if r.Intn(3) == 0 {
			x.TransactionID[r.Intn(36)] ^= 1 << uint(r.Intn(8))
		}
		e.Inputs[j] = &x

		return true
	}},
	{"input-index", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		e := s.Transaction.TransactionEssence
		e.Inputs[r.Intn(len(e.Inputs))].(*iotago.UTXOInput).TransactionOutputIndex = []uint16{127, 128, 129, 65535, 256}[r.Intn(5)]

		return true
	}},
	{"input-count", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		e := s.Transaction.TransactionEssence
		n := []int{0, 1, 127, 128, 129}[r.Intn(5)]
		e.Inputs = nil
		for i := 0; i < n; i++ {
			e.Inputs = append(e.Inputs, &iotago.UTXOInput{TransactionID: genOutputID(r).TransactionID(), TransactionOutputIndex: uint16(i % 128)})
		}
		s.Unlocks = genValidUnlocks(r, max(n, 1))

		return true
	}},
	{"output-count", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		n := []int{0, 127, 128, 129}[r.Intn(4)]
		s.Transaction.Outputs = nil
		for i := 0; i < n; i++ {
			b := &iotago.BasicOutput{UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: keyPool[i%len(keyPool)].ed()}}}
			b.Amount = iotago.BaseToken(refMinDeposit(w.PP.StorageScoreParameters(), b).Uint64())
			s.Transaction.Outputs = append(s.Transaction.Outputs, b)
		}

		return true
	}},
	{"context-order", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		e := s.Transaction.TransactionEssence
		if len(e.ContextInputs) == 0 {
			e.ContextInputs = iotago.TxEssenceContextInputs{&iotago.CommitmentInput{CommitmentID: genSlotID(r)}}
		}
		switch r.Intn(8) {
		case 0: // a second commitment
			e.ContextInputs = append(iotago.TxEssenceContextInputs{&iotago.CommitmentInput{CommitmentID: genSlotID(r)}}, e.ContextInputs...)
		case 1: // no commitment
			e.ContextInputs = e.ContextInputs[1:]
		case 2:
			e.ContextInputs = append(e.ContextInputs, &iotago.BlockIssuanceCreditInput{AccountID: r32(r)})
		case 3:
			e.ContextInputs = append(e.ContextInputs, &iotago.RewardInput{Index: uint16(len(e.Inputs) - r.Intn(2))})
		case 4:
			if len(e.ContextInputs) > 1 {
				swap(reflect.ValueOf(e.ContextInputs), r.Intn(len(e.ContextInputs)), r.Intn(len(e.ContextInputs)))
			}
		case 5: // issuance credit inputs next to each other
			id := iotago.AccountID(r32(r))
			id2 := id
			id2[31] ^= byte(r.Intn(2))
			e.ContextInputs = iotago.TxEssenceContextInputs{e.ContextInputs[0], &iotago.BlockIssuanceCreditInput{AccountID: id}, &iotago.BlockIssuanceCreditInput{AccountID: id2}}
		case 6: // reward inputs, in the order of their indices
			a, b := r.Intn(len(e.Inputs)), r.Intn(len(e.Inputs))
			e.ContextInputs = append(e.ContextInputs[:1:1], &iotago.RewardInput{Index: uint16(a)}, &iotago.RewardInput{Index: uint16(b)})
		case 7:
			n := 126 + r.Intn(4)
			e.ContextInputs = iotago.TxEssenceContextInputs{&iotago.CommitmentInput{CommitmentID: genSlotID(r)}}
			for i := 1; i < n; i++ {
				e.ContextInputs = append(e.ContextInputs, &iotago.BlockIssuanceCreditInput{AccountID: iotago.AccountID{byte(i)}})
			}
		}

		return true
	}},
	{"capabilities", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		s.Transaction.Capabilities = iotago.TransactionCapabilitiesBitMask([][]byte{{}, {0}, {1, 0}, {0x3f}, {0x40}, {0xff}, {1, 1}, {0, 1}, {0x20}}[r.Intn(9)])

		return true
	}},
	{"chain-duplicate", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		tx := s.Transaction
		k := r.Intn(5)
		typ := []iotago.OutputType{1, 2, 3, 4, 5}[k]
		a, ok := addOut(r, w, tx, typ)
		if !ok {
			return false
		}
		b, ok := addOut(r, w, tx, typ)
		if !ok {
			return false
		}
		flip := byte(r.Intn(2)) // half of the pairs differ in the last bit
		switch a := a.(type) {
		case *iotago.AccountOutput:
			if a.AccountID == (iotago.AccountID{}) && r.Intn(2) == 0 {
				a.AccountID = r32(r)
			}
			if a.AccountID == (iotago.AccountID{}) {
				flip = 0
			}
			b := b.(*iotago.AccountOutput)
			b.AccountID = a.AccountID
			b.AccountID[31] ^= flip
			if b.AccountID == (iotago.AccountID{}) {
				b.FoundryCounter = 0
			}
		case *iotago.AnchorOutput:
			b := b.(*iotago.AnchorOutput)
			if a.AnchorID == (iotago.AnchorID{}) {
				flip = 0
				b.StateIndex = 0
			}
			b.AnchorID = a.AnchorID
			b.AnchorID[31] ^= flip
		case *iotago.NFTOutput:
			b := b.(*iotago.NFTOutput)
			b.NFTID = a.NFTID
			if a.NFTID != (iotago.NFTID{}) {
				b.NFTID[31] ^= flip
			}
		case *iotago.DelegationOutput:
			b := b.(*iotago.DelegationOutput)
			b.DelegationID = a.DelegationID
			if a.DelegationID != (iotago.DelegationID{}) {
				b.DelegationID[31] ^= flip
			}
		case *iotago.FoundryOutput:
			b := b.(*iotago.FoundryOutput)
			b.SerialNumber = a.SerialNumber + uint32(flip)
			b.UnlockConditions[0].(*iotago.ImmutableAccountUnlockCondition).Address = a.UnlockConditions[0].(*iotago.ImmutableAccountUnlockCondition).Address
			for _, f := range b.Features {
				if n, is := f.(*iotago.NativeTokenFeature); is {
					n.ID = refFoundryID(b)
				}
			}
		}

		return true
	}},
	{"same-id-other-type", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		// an account, an anchor, an NFT and a delegation with the same 32 bytes are different chains
		id := r32(r)
		for i, typ := range []iotago.OutputType{1, 2, 4, 5} {
			o, ok := addOut(r, w, s.Transaction, typ)
			if !ok {
				return false
			}
			_ = i
			switch o := o.(type) {
			case *iotago.AccountOutput:
				o.AccountID = id
			case *iotago.AnchorOutput:
				o.AnchorID = id
			case *iotago.NFTOutput:
				o.NFTID = id
			case *iotago.DelegationOutput:
				o.DelegationID = id
			}
		}

		return true
	}},
	{"cyclic", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		tx := s.Transaction
		id := r32(r)
		other := id
		if r.Intn(3) == 0 {
			other[r.Intn(32)] ^= 1
		}
		if r.Intn(6) == 0 {
			id = [32]byte{}
			other = [32]byte{}
		}
		acc, anc, nft := iotago.AccountAddress(other), iotago.AnchorAddress(other), iotago.NFTAddress(other)
		addrs := []iotago.Address{&acc, &anc, &nft}
		switch r.Intn(3) {
		case 0:
			o, ok := getOut[*iotago.AccountOutput](r, w, tx, 1)
			if !ok {
				return false
			}
			o.AccountID = id
			if id == [32]byte{} && r.Intn(2) == 0 {
				o.FoundryCounter = 0
			}
			o.UnlockConditions[0].(*iotago.AddressUnlockCondition).Address = addrs[[]int{0, 0, r.Intn(3)}[r.Intn(3)]]
		case 1:
			o, ok := getOut[*iotago.AnchorOutput](r, w, tx, 2)
			if !ok {
				return false
			}
			o.AnchorID = id
			if id == [32]byte{} {
				o.StateIndex = 0
			}
			a := addrs[[]int{1, 1, r.Intn(3)}[r.Intn(3)]]
			if r.Intn(2) == 0 {
				o.UnlockConditions[0].(*iotago.StateControllerAddressUnlockCondition).Address = a
			} else {
				o.UnlockConditions[1].(*iotago.GovernorAddressUnlockCondition).Address = a
			}
		default:
			o, ok := getOut[*iotago.NFTOutput](r, w, tx, 4)
			if !ok {
				return false
			}
			o.NFTID = id
			o.UnlockConditions[0].(*iotago.AddressUnlockCondition).Address = addrs[[]int{2, 2, r.Intn(3)}[r.Intn(3)]]
		}

		return true
	}},
	{"account-fields", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		o, ok := getOut[*iotago.AccountOutput](r, w, s.Transaction, 1)
		if !ok {
			return false
		}
		switch r.Intn(4) {
		case 0:
			o.AccountID, o.FoundryCounter = iotago.AccountID{}, uint32(r.Intn(2))
		case 1:
			o.Features = iotago.AccountOutputFeatures{&iotago.StakingFeature{StakedAmount: o.Amount}}
		case 2:
			o.Features = iotago.AccountOutputFeatures{&iotago.BlockIssuerFeature{BlockIssuerKeys: iotago.BlockIssuerKeys{genBIKey(r)}}, &iotago.StakingFeature{StakedAmount: o.Amount + iotago.BaseToken(r.Intn(3)) - 1}}
		default:
			o.Features = iotago.AccountOutputFeatures{&iotago.BlockIssuerFeature{BlockIssuerKeys: iotago.BlockIssuerKeys{genBIKey(r)}}}
		}

		return true
	}},
	{"drop-commitment", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		switch r.Intn(3) {
		case 0:
			if _, ok := getOut[*iotago.DelegationOutput](r, w, s.Transaction, 5); !ok {
				return false
			}
		case 1:
			o, ok := getOut[*iotago.AccountOutput](r, w, s.Transaction, 1)
			if !ok {
				return false
			}
			o.Features = iotago.AccountOutputFeatures{&iotago.BlockIssuerFeature{BlockIssuerKeys: iotago.BlockIssuerKeys{genBIKey(r)}}}
		}
		s.Transaction.TransactionEssence.ContextInputs = iotago.TxEssenceContextInputs{}

		return true
	}},
	{"anchor-state-index", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		o, ok := getOut[*iotago.AnchorOutput](r, w, s.Transaction, 2)
		if !ok {
			return false
		}
		o.AnchorID, o.StateIndex = iotago.AnchorID{}, uint32(r.Intn(2))

		return true
	}},
	{"delegation-validator", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		o, ok := getOut[*iotago.DelegationOutput](r, w, s.Transaction, 5)
		if !ok {
			return false
		}
		*o.ValidatorAddress = iotago.AccountAddress{}
		o.ValidatorAddress[r.Intn(32)] = byte(r.Intn(2))

		return true
	}},
	{"foundry", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		o, ok := getOut[*iotago.FoundryOutput](r, w, s.Transaction, 3)
		if !ok {
			return false
		}
		old := *o.TokenScheme.(*iotago.SimpleTokenScheme)
		ts := &iotago.SimpleTokenScheme{MintedTokens: old.MintedTokens, MeltedTokens: old.MeltedTokens, MaximumSupply: new(big.Int).Set(old.MaximumSupply)}
		one := big.NewInt(1)
		switch r.Intn(7) {
		case 0:
			ts.MaximumSupply = big.NewInt(int64(r.Intn(2)))
			ts.MintedTokens, ts.MeltedTokens = big.NewInt(0), big.NewInt(0)
		case 1:
			ts.MintedTokens = new(big.Int).Sub(ts.MeltedTokens, one)
		case 2:
			ts.MintedTokens = new(big.Int).Add(ts.MeltedTokens, ts.MaximumSupply)
			if r.Intn(2) == 0 {
				ts.MintedTokens.Add(ts.MintedTokens, one)
			}
		case 3:
			ts.MintedTokens = new(big.Int).Set(ts.MeltedTokens)
		case 4:
			ts.MaximumSupply = new(big.Int).Sub(ts.MintedTokens, ts.MeltedTokens)
			if r.Intn(2) == 0 {
				ts.MaximumSupply.Sub(ts.MaximumSupply, one)
			}
		case 5:
			id := refFoundryID(o)
			id[r.Intn(38)] ^= 1
			o.Features = iotago.FoundryOutputFeatures{&iotago.NativeTokenFeature{ID: id, Amount: big.NewInt(int64(1 + r.Intn(3)))}}
		case 6:
			o.Features = iotago.FoundryOutputFeatures{&iotago.NativeTokenFeature{ID: refFoundryID(o), Amount: big.NewInt(int64(r.Intn(2)))}}
		}
		if ts.MintedTokens.Sign() < 0 || ts.MintedTokens.BitLen() > 256 || ts.MaximumSupply.Sign() < 0 {
			return false
		}
		o.TokenScheme = ts
		refSetAmount(o, refMinDeposit(w.PP.StorageScoreParameters(), o).Uint64())

		return true
	}},
	{"native-token", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		_, f, ok := findFeat[*iotago.NativeTokenFeature](r, s.Transaction)
		if !ok {
			return false
		}
		f.Amount = []*big.Int{big.NewInt(0), big.NewInt(1), maxU256}[r.Intn(3)]

		return true
	}},
	{"metadata-size", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		n := 8190 + r.Intn(5)
		if r.Intn(2) == 0 {
			o, ok := getOut[*iotago.AnchorOutput](r, w, s.Transaction, 2)
			if !ok {
				return false
			}
			f := &iotago.StateMetadataFeature{Entries: iotago.StateMetadataFeatureEntries{}}
			o.Features = iotago.AnchorOutputFeatures{f}
			if !setMapSize(f.Entries, n) {
				return false
			}
			refSetAmount(o, refMinDeposit(w.PP.StorageScoreParameters(), o).Uint64())

			return true
		}
		typ := []iotago.OutputType{0, 1, 2, 3, 4}[r.Intn(5)]
		o, ok := addOut(r, w, s.Transaction, typ)
		if !ok {
			return false
		}
		f := &iotago.MetadataFeature{Entries: iotago.MetadataFeatureEntries{}}
		if !setMapSize(f.Entries, n) {
			return false
		}
		switch o := o.(type) {
		case *iotago.BasicOutput:
			o.Features = iotago.BasicOutputFeatures{f}
		case *iotago.AccountOutput:
			o.Features = iotago.AccountOutputFeatures{f}
		case *iotago.AnchorOutput:
			o.Features = iotago.AnchorOutputFeatures{f}
		case *iotago.FoundryOutput:
			o.Features = iotago.FoundryOutputFeatures{f}
		case *iotago.NFTOutput:
			o.Features = iotago.NFTOutputFeatures{f}
		}
		refSetAmount(o, refMinDeposit(w.PP.StorageScoreParameters(), o).Uint64())

		return true
	}},
	{"zero-slot", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		if r.Intn(2) == 0 {
			if _, u, ok := findUC[*iotago.TimelockUnlockCondition](r, s.Transaction); ok {
				u.Slot = iotago.SlotIndex(r.Intn(2))

				return true
			}
		}
		if _, u, ok := findUC[*iotago.ExpirationUnlockCondition](r, s.Transaction); ok {
			u.Slot = iotago.SlotIndex(r.Intn(2))

			return true
		}

		return false
	}},
	{"sdr", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		o, u, ok := findUC[*iotago.StorageDepositReturnUnlockCondition](r, s.Transaction)
		if !ok {
			return false
		}
		min := refReturnDeposit(w.PP.StorageScoreParameters(), u.ReturnAddress).Uint64()
		u.Amount = iotago.BaseToken([]uint64{0, min - 1, min, min + 1, refAmount(o), refAmount(o) + 1, 1<<64 - 1}[r.Intn(7)])

		return true
	}},
	{"restricted", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		tx := s.Transaction
		for _, i := range r.Perm(len(tx.Outputs)) {
			ucs := refUCList(tx.Outputs[i])
			for _, j := range r.Perm(len(ucs)) {
				caps := iotago.AddressCapabilitiesBitMask{byte(r.Intn(256)), byte(1 + r.Intn(1))}
				switch r.Intn(4) {
				case 0:
					caps = iotago.AddressCapabilitiesBitMask{}
				case 1:
					b := r.Intn(9) // all but one
					full := []byte{0xff, 1}
					full[b/8] &^= 1 << uint(b%8)
					if full[1] == 0 {
						full = full[:1]
					}
					caps = full
				case 2:
					b := r.Intn(9) // only one
					one := []byte{0, 0}
					one[b/8] |= 1 << uint(b%8)
					if one[1] == 0 {
						one = one[:1]
					}
					caps = one
				}
				var a iotago.Address = &iotago.RestrictedAddress{Address: genDirectAddr(r), AllowedCapabilities: caps}
				switch u := ucs[j].(type) {
				case *iotago.AddressUnlockCondition:
					if coin(r, 4) {
						a = genImplicit(r)
					}
					u.Address = a
				case *iotago.ExpirationUnlockCondition:
					u.ReturnAddress = a
				case *iotago.StorageDepositReturnUnlockCondition:
					u.ReturnAddress = a
				case *iotago.StateControllerAddressUnlockCondition:
					u.Address = a
				case *iotago.GovernorAddressUnlockCondition:
					u.Address = a
				default:
					continue
				}
				coverDeposits(w, tx.Outputs[i], ucs)

				return true
			}
		}

		return false
	}},
	{"odd-address", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		tx := s.Transaction
		a := genOddAddr(r)
		for _, i := range r.Perm(len(tx.Outputs)) {
			o := tx.Outputs[i]
			done := false
			feats, imm := refFeatList(o)
			for _, f := range append(append([]iotago.Feature{}, feats...), imm...) {
				if done || coin(r, 2) {
					continue
				}
				done = true
				switch f := f.(type) {
				case *iotago.SenderFeature:
					f.Address = a
				case *iotago.IssuerFeature:
					f.Address = a
				default:
					done = false
				}
			}
			ucs := refUCList(o)
			for _, j := range r.Perm(len(ucs)) {
				if done {
					break
				}
				done = true
				switch u := ucs[j].(type) {
				case *iotago.AddressUnlockCondition:
					u.Address = a
				case *iotago.ExpirationUnlockCondition:
					u.ReturnAddress = a
				case *iotago.StorageDepositReturnUnlockCondition:
					u.ReturnAddress = a
				case *iotago.StateControllerAddressUnlockCondition:
					u.Address = a
				case *iotago.GovernorAddressUnlockCondition:
					u.Address = a
				default:
					done = false
				}
			}
			if !done {
				continue
			}
			coverDeposits(w, o, ucs)

			return true
		}

		return false
	}},
	{"list-order", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		tx := s.Transaction
		for _, i := range r.Perm(len(tx.Outputs)) {
			v := reflect.ValueOf(tx.Outputs[i]).Elem()
			for _, f := range []string{"UnlockConditions", "Features", "ImmutableFeatures"} {
				l := v.FieldByName(f)
				if l.IsValid() && l.Len() > 1 && coin(r, 2) {
					k := r.Intn(l.Len() - 1)
					switch r.Intn(4) {
					case 0:
						swap(l, k, k+1)
					case 1:
						l.Index(k + 1).Set(l.Index(k))
					case 2: // one moves to the front
						for k++; k > 0; k-- {
							swap(l, k-1, k)
						}
					case 3: // one moves to the end
						for ; k+1 < l.Len(); k++ {
							swap(l, k, k+1)
						}
					}

					return true
				}
			}
		}

		return false
	}},
	{"unlock-count", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		if r.Intn(2) == 0 && len(s.Unlocks) > 1 {
			s.Unlocks = s.Unlocks[:len(s.Unlocks)-1]
		} else if len(s.Unlocks) < 128 {
			s.Unlocks = append(s.Unlocks, &iotago.SignatureUnlock{Signature: genSignature(r)})
		}

		return true
	}},
	{"unlock-random", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		u := genUnlock(r, coin(r, 8))
		visit(reflect.ValueOf(u), func(x any) {
			for _, p := range []any{x} {
				switch p := p.(type) {
				case *iotago.ReferenceUnlock:
					p.Reference = uint16(r.Intn(len(s.Unlocks) + 1))
				case *iotago.AccountUnlock:
					p.Reference = uint16(r.Intn(len(s.Unlocks) + 1))
				case *iotago.AnchorUnlock:
					p.Reference = uint16(r.Intn(len(s.Unlocks) + 1))
				case *iotago.NFTUnlock:
					p.Reference = uint16(r.Intn(len(s.Unlocks) + 1))
				}
			}
		})
		s.Unlocks[r.Intn(len(s.Unlocks))] = u

		return true
	}},
	{"unlock-empty", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		i := r.Intn(len(s.Unlocks))
		if coin(r, 2) {
			// behind a multi unlock, if there is one
			for j, u := range s.Unlocks {
				if _, is := u.(*iotago.MultiUnlock); is && j+1 < len(s.Unlocks) {
					i = j + 1
				}
			}
			if _, is := s.Unlocks[max(i-1, 0)].(*iotago.MultiUnlock); !is && i > 0 {
				s.Unlocks[i-1] = &iotago.MultiUnlock{Unlocks: iotago.Unlocks{&iotago.SignatureUnlock{Signature: genSignature(r)}, &iotago.SignatureUnlock{Signature: genSignature(r)}}}
			}
		}
		s.Unlocks[i] = &iotago.EmptyUnlock{}

		return true
	}},
	{"metadata-key", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		// a key with a byte on or beside the limits of what can be printed
		k := []byte("abcdefgh")[:1+r.Intn(8)]
		k[[]int{0, len(k) - 1, r.Intn(len(k))}[r.Intn(3)]] = []byte{0, 31, 32, 33, 34, 125, 126, 127, 128, 255}[r.Intn(10)]
		if coin(r, 2) {
			o, ok := getOut[*iotago.AnchorOutput](r, w, s.Transaction, 2)
			if !ok {
				return false
			}
			o.Features = iotago.AnchorOutputFeatures{&iotago.StateMetadataFeature{Entries: iotago.StateMetadataFeatureEntries{iotago.StateMetadataFeatureEntriesKey(k): nil}}}
			refSetAmount(o, refMinDeposit(w.PP.StorageScoreParameters(), o).Uint64())

			return true
		}
		x, ok := addOut(r, w, s.Transaction, 0)
		if !ok {
			return false
		}
		o, is := x.(*iotago.BasicOutput)
		if !is {
			return false
		}
		o.Features = iotago.BasicOutputFeatures{&iotago.MetadataFeature{Entries: iotago.MetadataFeatureEntries{iotago.MetadataFeatureEntriesKey(k): []byte{1}}}}
		refSetAmount(o, refMinDeposit(w.PP.StorageScoreParameters(), o).Uint64())

		return true
	}},
	{"unlock-duplicate", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		if len(s.Unlocks) < 2 {
			return false
		}
		i := r.Intn(len(s.Unlocks) - 1)
		j := i + 1 + r.Intn(len(s.Unlocks)-i-1)
		s.Unlocks[j] = s.Unlocks[i]

		return true
	}},
	{"unlock-same-key", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		// two signatures of one key, at the top level or inside multi unlocks
		var sigs []*iotago.Ed25519Signature
		visit(reflect.ValueOf(s.Unlocks), func(x any) {
			if g, is := x.(*iotago.Ed25519Signature); is {
				sigs = append(sigs, g)
			}
		})
		if len(sigs) < 2 {
			return false
		}
		sigs[r.Intn(len(sigs))].PublicKey = sigs[r.Intn(len(sigs))].PublicKey

		return true
	}},
	{"multi-unlock", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		m := &iotago.MultiUnlock{}
		for i := []int{1, 2, 10, 11}[r.Intn(4)]; i > 0; i-- {
			m.Unlocks = append(m.Unlocks, &iotago.SignatureUnlock{Signature: genSignature(r)})
		}
		if r.Intn(3) == 0 {
			m.Unlocks[0] = &iotago.MultiUnlock{Unlocks: iotago.Unlocks{&iotago.EmptyUnlock{}, &iotago.EmptyUnlock{}}}
		}
		s.Unlocks[r.Intn(len(s.Unlocks))] = m

		return true
	}},
	{"scalar", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		_, ok := perturb(r, reflect.ValueOf(s.Transaction))

		return ok
	}},
	{"scalar-unlock", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		_, ok := perturb(r, reflect.ValueOf(s.Unlocks))

		return ok
	}},
	{"payload", func(r *rand.Rand, w *World, s *iotago.SignedTransaction) bool {
		s.Transaction.Payload = &iotago.TaggedData{Tag: rbytes(r, []int{0, 64, 65}[r.Intn(3)]), Data: rbytes(r, []int{0, 8192, 8193}[r.Intn(3)])}

		return true
	}},
}

// coverDeposits raises the amounts to what the storage of the output (and of the returned deposit) costs.
func coverDeposits(w *World, o iotago.Output, ucs []iotago.UnlockCondition) {
	if d := refMinDeposit(w.PP.StorageScoreParameters(), o).Uint64(); refAmount(o) < d {
		refSetAmount(o, d)
	}
	for _, u := range ucs {
		if u, is := u.(*iotago.StorageDepositReturnUnlockCondition); is {
			u.Amount = iotago.BaseToken(max(uint64(u.Amount), refReturnDeposit(w.PP.StorageScoreParameters(), u.ReturnAddress).Uint64()))
			if uint64(u.Amount) > refAmount(o) {
				refSetAmount(o, uint64(u.Amount))
			}
		}
	}
}

// genOddAddr generates restricted and multi addresses at and beyond the limits of their structure.
func genOddAddr(r *rand.Rand) iotago.Address {
	multi := func() *iotago.MultiAddress {
		m := genMulti(r)
		switch r.Intn(9) {
		case 0: // one too few, or too many
			if coin(r, 2) {
				m.Addresses = m.Addresses[:1]
			} else {
				for len(m.Addresses) < 11 {
					m.Addresses = append(m.Addresses, &iotago.AddressWithWeight{Address: genDirectAddr(r), Weight: 1})
				}
				m.Addresses = sortUniqueAddrs(m.Addresses)
			}
		case 1:
			m.Addresses[r.Intn(len(m.Addresses))].Weight = 0
		case 2:
			i, j := r.Intn(len(m.Addresses)), r.Intn(len(m.Addresses))
			m.Addresses[i], m.Addresses[j] = m.Addresses[j], m.Addresses[i]
		case 3:
			i := r.Intn(len(m.Addresses) - 1)
			m.Addresses[i+1] = &iotago.AddressWithWeight{Address: m.Addresses[i].Address, Weight: byte(1 + r.Intn(255))}
		case 4:
			m.Addresses[r.Intn(len(m.Addresses))].Address = []iotago.Address{genImplicit(r), genMulti(r), genRestricted(r)}[r.Intn(3)]
			m.Addresses = sortUniqueAddrs(m.Addresses)
		case 5, 6:
			sum := 0
			for _, a := range m.Addresses {
				if coin(r, 2) {
					a.Weight = 255
				}
				sum += int(a.Weight)
			}
			m.Threshold = uint16(sum - 1 + r.Intn(3))
		case 7:
			m.Threshold = uint16(r.Intn(2))
		}

		return m
	}
	if coin(r, 2) {
		return multi()
	}
	a := &iotago.RestrictedAddress{Address: genDirectAddr(r), AllowedCapabilities: genCaps(r)}
	switch r.Intn(5) {
	case 0:
		a.Address = multi()
	case 1:
		a.Address = []iotago.Address{genImplicit(r), genRestricted(r)}[r.Intn(2)]
	case 2:
		a.AllowedCapabilities = rbytes(r, r.Intn(4))
	case 3:
		a.AllowedCapabilities = make([]byte, r.Intn(4))
		if n := len(a.AllowedCapabilities); n > 0 {
			a.AllowedCapabilities[r.Intn(n)] = byte(1 + r.Intn(255))
		}
	}

	return a
}

func p13Address(t *Case) {
	r := t.R
	w := pickWorld(r)
	a := genOddAddr(r)
	raw := refAddr(a)
	want := refAddrOK(a)
	t.Note("address %x", raw)
	t.Eval(join("address", fmt.Sprintf("%T", a), want))
	got, n, err := iotago.AddressFromBytes(raw)
	t.Check((err == nil) == (want == ""), "address:"+orStr(want, "accepted"), "AddressFromBytes returned %v, expected %s", err, orStr(want, "no error"))
	if err == nil && want == "" {
		t.Check(n == len(raw) && got.Equal(a), "address:value", "decoded %v (%d of %d bytes)", got, n, len(raw))
	}
	u := &iotago.AddressUnlockCondition{}
	_, err = w.API.Decode(append([]byte{0}, raw...), u, serix.WithValidation())
	t.Check((err == nil) == (want == ""), "address:"+orStr(want, "accepted"), "decoding an unlock condition returned %v, expected %s", err, orStr(want, "no error"))
}

// ucsPresent tells whether the outputs have the unlock conditions which every output needs (they are what decoding guarantees).
func ucsPresent(tx *iotago.Transaction) bool {
	for _, o := range tx.Outputs {
		if s := refOutputStruct(o); s != "" && s != "uc-order" && s != "feature-order" {
			return false
		}
		ucs := refUCList(o)
		seen := map[int]bool{}
		for _, u := range ucs {
			if seen[refUCType(u)] {
				return false
			}
			seen[refUCType(u)] = true
		}
		for _, m := range refUCMust[int(refOutput(o)[0])] {
			if !seen[m] {
				return false
			}
		}
		// the reference reads the address at its sorted position
		for i := 1; i < len(ucs); i++ {
			if refUCType(ucs[i-1]) > refUCType(ucs[i]) {
				return false
			}
		}
	}

	return len(tx.TransactionEssence.Inputs) > 0 && len(tx.Outputs) > 0
}

func p13(c *Ctx) {
	c.Rule("syntactically valid signed transactions over all output types, and the same with one or two boundary mutations (" + itoa(len(txMuts)) + " kinds: amounts, mana, supply, allotments, inputs, context inputs, capabilities, chain IDs, cyclic ownership, foundries, native tokens, metadata, restricted and multi addresses, list order, unlock structure, single scalars); accept/reject of Transaction.SyntacticallyValidate and of validated decoding compared with an independent rule book; distinct = (mutations, verdict, output types).")
	c.Assume("The rule book is the one written from the protocol's documentation and comments; the error category is not compared, only acceptance.")
	c.Run("address", c.N(6000, 200000), p13Address)
	c.Run("tx", c.N(40000, 1500000), func(t *Case) {
		r := t.R
		w := pickWorld(r)
		s := genValidSignedTx(r, w)
		var names []string
		for k := 0; k <= r.Intn(2)*r.Intn(2); k++ {
			m := txMuts[(t.Index+k*r.Intn(len(txMuts)))%len(txMuts)]
			if m.f(r, w, s) {
				names = append(names, m.name)
			}
			if !ucsPresent(s.Transaction) || len(s.Unlocks) == 0 {
				break
			}
		}
		tx := s.Transaction
		name := strings.Join(names, "+")
		if !encodable(w, s) && r.Intn(2) == 0 {
			t.Eval("")

			return
		}
		raw := refSignedTx(s)
		t.Note("mutations: %s\nsigned transaction: %x", name, raw)
		types := 0
		for _, o := range tx.Outputs {
			types |= 1 << uint(o.Type())
		}
		// the object
		if ucsPresent(tx) {
			want := refTxSyntactic(w, tx)
			err := tx.SyntacticallyValidate(w.API)
			t.Eval(join("object", name, want, itoa(types)))
			if want == "" {
				t.Count("object accepted")
			} else {
				t.Count("object rejected: " + want)
			}
			if (err == nil) != (want == "") {
				t.Violate("object:"+orStr(want, "accepted"), "mutations %s: SyntacticallyValidate returned %v, expected %s", name, err, orStr(want, "no error"))
			}
		}
		// validated decoding
		want := ""
		if len(tx.TransactionEssence.Inputs) == 0 || len(tx.Outputs) == 0 {
			want = "count"
		} else {
			want = refSignedTxDecodes(w, s)
		}
		d := &iotago.SignedTransaction{API: w.API}
		n, err := w.API.Decode(raw, d, serix.WithValidation())
		t.Eval(join("decode", name, want))
		if want == "" {
			t.Count("decode accepted")
		} else {
			t.Count("decode rejected")
		}
		if (err == nil) != (want == "") {
			t.Violate("decode:"+orStr(want, "accepted"), "mutations %s: decoding with validation returned %v, expected %s", name, err, orStr(want, "no error"))
		} else if err == nil {
			t.Check(n == len(raw), "decode:length", "consumed %d of %d bytes", n, len(raw))
		}
		if t.Index < 4 {
			t.Sample(map[string]any{"mutations": name, "verdict": orStr(want, "valid"), "bytes": fmt.Sprintf("%x", raw[:min(len(raw), 80)])})
		}
	})
}

func orStr(a, b string) string {
	if a == "" {
		return b
	}

	return a
}
