package main

// Generators of syntactically valid transactions and signed transactions, and mutators which cross single boundaries.

import (
	"math/big"
	"math/rand"
	"sort"

	iotago "github.com/iotaledger/iota.go/v4"
)

func bigBelow(r *rand.Rand, max *big.Int) *big.Int {
	if max.Sign() <= 0 {
		return new(big.Int)
	}
	switch r.Intn(5) {
	case 0:
		return new(big.Int)
	case 1:
		return new(big.Int).Set(max)
	}

	return new(big.Int).Rand(r, new(big.Int).Add(max, big.NewInt(1)))
}

var maxU256 = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))

func nonZeroBig(r *rand.Rand) *big.Int {
	for {
		if x := rbig(r); x.Sign() > 0 {
			return x
		}
	}
}

func slotNZ(r *rand.Rand) iotago.SlotIndex {
	for {
		if x := ru32(r); x != 0 {
			return iotago.SlotIndex(x)
		}
	}
}

// repairOutput turns a well-formed output into a syntactically valid one, drawing from the remaining budgets.
func repairOutput(r *rand.Rand, w *World, o iotago.TxEssenceOutput, tokens, mana *uint64) bool {
	for _, u := range refUCList(o) {
		switch u := u.(type) {
		case *iotago.TimelockUnlockCondition:
			u.Slot = slotNZ(r)
		case *iotago.ExpirationUnlockCondition:
			u.Slot = slotNZ(r)
		}
	}
	feats, imm := refFeatList(o)
	for _, f := range append(append([]iotago.Feature{}, feats...), imm...) {
		switch f := f.(type) {
		case *iotago.NativeTokenFeature:
			f.Amount = nonZeroBig(r)
			if fo, is := o.(*iotago.FoundryOutput); is {
				f.ID = refFoundryID(fo)
			}
		case *iotago.MetadataFeature:
			shrinkMap(f.Entries)
		case *iotago.StateMetadataFeature:
			shrinkMap(f.Entries)
		}
	}
	switch o := o.(type) {
	case *iotago.AccountOutput:
		if coin(r, 3) {
			o.AccountID = iotago.AccountID{}
		}
		if zero32(o.AccountID) {
			o.FoundryCounter = 0
		}
		set := map[int]iotago.Feature{}
		for _, f := range feats {
			set[refFeatType(f)] = f
		}
		if set[7] != nil && set[6] == nil {
			set[6] = genBlockIssuer(r)
		}
		o.Features = iotago.AccountOutputFeatures{}
		for t := 0; t < 8; t++ {
			if set[t] != nil {
				o.Features = append(o.Features, set[t].(iotago.AccountOutputFeature))
			}
		}
		if a := o.UnlockConditions[0].(*iotago.AddressUnlockCondition); isImplicit(a.Address) {
			a.Address = genDirectAddr(r)
		}
	case *iotago.AnchorOutput:
		if coin(r, 3) {
			o.AnchorID = iotago.AnchorID{}
		}
		if zero32(o.AnchorID) {
			o.StateIndex = 0
		}
	case *iotago.NFTOutput:
		if coin(r, 3) {
			o.NFTID = iotago.NFTID{}
		}
	case *iotago.DelegationOutput:
		if coin(r, 3) {
			o.DelegationID = iotago.DelegationID{}
		}
		if zero32(*o.ValidatorAddress) {
			o.ValidatorAddress[3] = 7
		}
	case *iotago.FoundryOutput:
		max := nonZeroBig(r)
		melted := bigBelow(r, maxU256)
		minted := new(big.Int).Add(melted, bigBelow(r, max))
		if minted.Cmp(maxU256) > 0 {
			minted.Set(maxU256)
		}
		o.TokenScheme = &iotago.SimpleTokenScheme{MaximumSupply: max, MeltedTokens: melted, MintedTokens: minted}
	}
	for _, u := range refUCList(o) {
		switch u := u.(type) {
		case *iotago.AddressUnlockCondition:
			if _, basic := o.(*iotago.BasicOutput); isImplicit(u.Address) && !basic {
				u.Address = genDirectAddr(r)
			}
		}
	}
	// mana
	refSetMana(o, 0)
	if *mana > 0 && !coin(r, 3) {
		var m uint64
		switch r.Intn(4) {
		case 0:
			m = *mana
		default:
			m = (ru64(r) % *mana) >> uint(r.Intn(20))
		}
		refSetMana(o, m)
		m = refStoredMana(o)
		*mana -= m
	}
	// addresses which may not hold the output
	for try := 0; try < 4; try++ {
		bad := false
		for _, u := range refUCList(o) {
			switch u := u.(type) {
			case *iotago.AddressUnlockCondition:
				if refAddrRestrictions(o, u.Address) != "" {
					bad = true
					u.Address = fixRestricted(r, u.Address, try)
				}
			case *iotago.ExpirationUnlockCondition:
				if refAddrRestrictions(o, u.ReturnAddress) != "" {
					bad = true
					u.ReturnAddress = fixRestricted(r, u.ReturnAddress, try)
				}
			case *iotago.StateControllerAddressUnlockCondition:
				if refAddrRestrictions(o, u.Address) != "" {
					bad = true
					u.Address = fixRestricted(r, u.Address, try)
				}
			case *iotago.GovernorAddressUnlockCondition:
				if refAddrRestrictions(o, u.Address) != "" {
					bad = true
					u.Address = fixRestricted(r, u.Address, try)
				}
			}
		}
		if !bad {
			break
		}
	}
	// deposits
	sp := w.PP.StorageScoreParameters()
	min := refMinDeposit(sp, o).Uint64()
	for _, u := range refUCList(o) {
		if u, is := u.(*iotago.StorageDepositReturnUnlockCondition); is {
			u.Amount = iotago.BaseToken(refReturnDeposit(sp, u.ReturnAddress).Uint64())
			if !coin(r, 3) {
				u.Amount += iotago.BaseToken(r.Intn(1000))
			}
			if uint64(u.Amount) > min {
				min = uint64(u.Amount)
			}
		}
	}
	if min > *tokens {
		return false
	}
	amount := min
	switch r.Intn(4) {
	case 0:
	case 1:
		amount += (*tokens - min) / 2
	default:
		amount += uint64(r.Int63n(int64((*tokens-min)/4 + 1)))
	}
	if acc, is := o.(*iotago.AccountOutput); is {
		for _, f := range acc.Features {
			if f, is := f.(*iotago.StakingFeature); is {
				f.StakedAmount = iotago.BaseToken(amount)
				if coin(r, 2) {
					f.StakedAmount = iotago.BaseToken(uint64(r.Int63n(int64(amount))))
				}
			}
		}
	}
	refSetAmount(o, amount)
	*tokens -= amount

	return true
}

func fixRestricted(r *rand.Rand, a iotago.Address, try int) iotago.Address {
	if x, is := a.(*iotago.RestrictedAddress); is && try == 0 && !coin(r, 3) {
		return &iotago.RestrictedAddress{Address: x.Address, AllowedCapabilities: iotago.AddressCapabilitiesBitMask{0xff, 1}}
	}

	return genDirectAddr(r)
}

func needsCommitment(outs iotago.TxEssenceOutputs) bool {
	for _, o := range outs {
		if _, is := o.(*iotago.DelegationOutput); is {
			return true
		}
		feats, _ := refFeatList(o)
		for _, f := range feats {
			switch f.(type) {
			case *iotago.StakingFeature, *iotago.BlockIssuerFeature:
				return true
			}
		}
	}

	return false
}

// genValidTx generates a syntactically valid transaction.
func genValidTx(r *rand.Rand, w *World) *iotago.Transaction {
	for {
		tx := genTx(r, w)
		e := tx.TransactionEssence
		e.NetworkID = refNetworkID(w)
		if coin(r, 40) {
			e.Inputs = nil
			for i := 0; i < 128; i++ {
				id := genOutputID(r)
				e.Inputs = append(e.Inputs, &iotago.UTXOInput{TransactionID: iotago.TransactionID(id[:36]), TransactionOutputIndex: uint16(i)})
			}
		}
		tokens := uint64(w.PP.TokenSupply())
		mana := uint64(1)<<w.PP.ManaParameters().BitsCount - 1
		if coin(r, 40) {
			tx.Outputs = nil
			for i := 0; i < 128; i++ {
				tx.Outputs = append(tx.Outputs, genOutput(r))
			}
		}
		var outs iotago.TxEssenceOutputs
		for _, o := range tx.Outputs {
			if repairOutput(r, w, o, &tokens, &mana) {
				outs = append(outs, o)
			}
		}
		tx.Outputs = outs
		amana := uint64(1)<<w.PP.ManaParameters().BitsCount - 1
		for _, a := range e.Allotments {
			if amana > 0 {
				a.Mana = iotago.Mana(uint64(a.Mana) % (amana + 1))
				amana -= uint64(a.Mana)
			} else {
				a.Mana = 0
			}
		}
		// context inputs
		var cis iotago.TxEssenceContextInputs
		var commitment *iotago.CommitmentInput
		rewards := map[int]bool{}
		for _, c := range e.ContextInputs {
			switch c := c.(type) {
			case *iotago.CommitmentInput:
				commitment = c
			case *iotago.BlockIssuanceCreditInput:
				cis = append(cis, c)
			case *iotago.RewardInput:
				rewards[int(c.Index)%len(e.Inputs)] = true
			}
		}
		var idx []int
		for i := range rewards {
			idx = append(idx, i)
		}
		sort.Ints(idx)
		for _, i := range idx {
			cis = append(cis, &iotago.RewardInput{Index: uint16(i)})
		}
		if commitment == nil && (len(cis) > 0 || needsCommitment(tx.Outputs)) {
			commitment = &iotago.CommitmentInput{CommitmentID: genSlotID(r)}
		}
		e.ContextInputs = iotago.TxEssenceContextInputs{}
		if commitment != nil {
			e.ContextInputs = append(e.ContextInputs, commitment)
		}
		e.ContextInputs = append(e.ContextInputs, cis...)
		if len(tx.Outputs) == 0 || refTxStruct(tx) != "" || refTxSyntactic(w, tx) != "" {
			continue
		}

		return tx
	}
}

// genValidUnlocks generates n unlocks which are syntactically valid.
func genValidUnlocks(r *rand.Rand, n int) iotago.Unlocks {
	for {
		var us iotago.Unlocks
		used := r.Perm(len(keyPool))
		sig := func(k int) *iotago.SignatureUnlock {
			s := genSignature(r)
			copy(s.PublicKey[:], keyPool[k].Pub)
			if k >= len(keyPool) {
				_, _ = r.Read(s.PublicKey[:])
			}

			return &iotago.SignatureUnlock{Signature: s}
		}
		next := 0
		fresh := func() *iotago.SignatureUnlock {
			if next >= len(used) {
				s := genSignature(r)

				return &iotago.SignatureUnlock{Signature: s}
			}
			next++

			return sig(used[next-1])
		}
		ref := func(max int) uint16 { return uint16(r.Intn(max)) }
		for i := 0; i < n; i++ {
			var u iotago.Unlock
			for try := 0; ; try++ {
				switch {
				case i == 0 || try > 10 || coin(r, 4):
					u = fresh()
				default:
					switch r.Intn(5) {
					case 0:
						u = &iotago.ReferenceUnlock{Reference: ref(i)}
					case 1:
						u = &iotago.AccountUnlock{Reference: ref(i)}
					case 2:
						u = &iotago.AnchorUnlock{Reference: ref(i)}
					case 3:
						u = &iotago.NFTUnlock{Reference: ref(i)}
					default:
						m := &iotago.MultiUnlock{}
						for k := 2 + r.Intn(9); k > 0; k-- {
							switch r.Intn(4) {
							case 0:
								m.Unlocks = append(m.Unlocks, &iotago.EmptyUnlock{})
							case 1:
								m.Unlocks = append(m.Unlocks, &iotago.ReferenceUnlock{Reference: ref(i)})
							case 2:
								m.Unlocks = append(m.Unlocks, &iotago.NFTUnlock{Reference: ref(i)})
							default:
								if coin(r, 3) && next > 0 {
									m.Unlocks = append(m.Unlocks, sig(used[r.Intn(next)]))
								} else {
									m.Unlocks = append(m.Unlocks, fresh())
								}
							}
						}
						u = m
					}
				}
				if refUnlocksValid(append(append(iotago.Unlocks{}, us...), u)) == "" {
					break
				}
			}
			us = append(us, u)
		}
		if refUnlocksValid(us) == "" {
			return us
		}
	}
}

// genValidSignedTx generates a signed transaction which can be deserialized with validation (the signatures are random).
func genValidSignedTx(r *rand.Rand, w *World) *iotago.SignedTransaction {
	tx := genValidTx(r, w)

	return &iotago.SignedTransaction{API: w.API, Transaction: tx, Unlocks: genValidUnlocks(r, len(tx.TransactionEssence.Inputs))}
}

// shrinkMap removes entries (in key order) until the metadata map is small enough.
func shrinkMap[K ~string, V ~[]byte](m map[K]V) {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, string(k))
	}
	sort.Strings(keys)
	for refMapSize(m) > 8192 {
		delete(m, K(keys[0]))
		keys = keys[1:]
	}
}
