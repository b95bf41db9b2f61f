package main

// Reference storage score / minimum deposit / work score, computed from the objects' fields and the reference encoding.

import (
	"math/big"

	iotago "github.com/iotaledger/iota.go/v4"
)

func refFeatList(o iotago.Output) (feats, imm []iotago.Feature) {
	switch o := o.(type) {
	case *iotago.BasicOutput:
		for _, f := range o.Features {
			feats = append(feats, f)
		}
	case *iotago.AccountOutput:
		for _, f := range o.Features {
			feats = append(feats, f)
		}
		for _, f := range o.ImmutableFeatures {
			imm = append(imm, f)
		}
	case *iotago.AnchorOutput:
		for _, f := range o.Features {
			feats = append(feats, f)
		}
		for _, f := range o.ImmutableFeatures {
			imm = append(imm, f)
		}
	case *iotago.FoundryOutput:
		for _, f := range o.Features {
			feats = append(feats, f)
		}
		for _, f := range o.ImmutableFeatures {
			imm = append(imm, f)
		}
	case *iotago.NFTOutput:
		for _, f := range o.Features {
			feats = append(feats, f)
		}
		for _, f := range o.ImmutableFeatures {
			imm = append(imm, f)
		}
	}

	return feats, imm
}

func refUCList(o iotago.Output) (ucs []iotago.UnlockCondition) {
	switch o := o.(type) {
	case *iotago.BasicOutput:
		for _, u := range o.UnlockConditions {
			ucs = append(ucs, u)
		}
	case *iotago.AccountOutput:
		for _, u := range o.UnlockConditions {
			ucs = append(ucs, u)
		}
	case *iotago.AnchorOutput:
		for _, u := range o.UnlockConditions {
			ucs = append(ucs, u)
		}
	case *iotago.FoundryOutput:
		for _, u := range o.UnlockConditions {
			ucs = append(ucs, u)
		}
	case *iotago.NFTOutput:
		for _, u := range o.UnlockConditions {
			ucs = append(ucs, u)
		}
	case *iotago.DelegationOutput:
		for _, u := range o.UnlockConditions {
			ucs = append(ucs, u)
		}
	}

	return ucs
}

// refAddrsOf lists the addresses which appear directly in the unlock conditions and features of an output.
func refAddrsOf(o iotago.Output) (as []iotago.Address) {
	for _, u := range refUCList(o) {
		switch u := u.(type) {
		case *iotago.AddressUnlockCondition:
			as = append(as, u.Address)
		case *iotago.StorageDepositReturnUnlockCondition:
			as = append(as, u.ReturnAddress)
		case *iotago.ExpirationUnlockCondition:
			as = append(as, u.ReturnAddress)
		case *iotago.StateControllerAddressUnlockCondition:
			as = append(as, u.Address)
		case *iotago.GovernorAddressUnlockCondition:
			as = append(as, u.Address)
		}
	}
	feats, imm := refFeatList(o)
	for _, f := range append(append([]iotago.Feature{}, feats...), imm...) {
		switch f := f.(type) {
		case *iotago.SenderFeature:
			as = append(as, f.Address)
		case *iotago.IssuerFeature:
			as = append(as, f.Address)
		}
	}

	return as
}

func bi(v uint64) *big.Int { return new(big.Int).SetUint64(v) }

func mulAdd(sum *big.Int, a, b uint64) { sum.Add(sum, new(big.Int).Mul(bi(a), bi(b))) }

// refStorageScore computes the storage score of an output without overflow.
func refStorageScore(sp *iotago.StorageScoreParameters, o iotago.Output) *big.Int {
	sum := new(big.Int)
	// overhead of every output: offset plus output ID, block ID and slot index as data
	sum.Add(sum, bi(uint64(sp.OffsetOutputOverhead)))
	mulAdd(sum, uint64(sp.FactorData), 38+36+4)
	mulAdd(sum, uint64(sp.FactorData), uint64(len(refOutput(o))))
	feats, imm := refFeatList(o)
	for _, f := range append(append([]iotago.Feature{}, feats...), imm...) {
		switch f := f.(type) {
		case *iotago.BlockIssuerFeature:
			mulAdd(sum, uint64(sp.OffsetEd25519BlockIssuerKey), uint64(len(f.BlockIssuerKeys)))
		case *iotago.StakingFeature:
			mulAdd(sum, uint64(sp.OffsetStakingFeature), 1)
		}
	}
	// every implicit account creation address reserves the storage of the account it will become: the minimal account a block
	// issuer needs minus the wrapping basic output
	minAccount := 1 + 8 + 8 + 32 + 4 + (1 + 1 + 33) + (1 + 1 + 4 + 1 + 33) + 1
	minBasic := 1 + 8 + 8 + (1 + 1 + 33) + 1
	for _, a := range refAddrsOf(o) {
		if _, is := a.(*iotago.ImplicitAccountCreationAddress); is {
			mulAdd(sum, uint64(sp.FactorData), uint64(minAccount-minBasic))
			mulAdd(sum, uint64(sp.OffsetEd25519BlockIssuerKey), 1)
		}
	}
	if _, is := o.(*iotago.DelegationOutput); is {
		sum.Add(sum, bi(uint64(sp.OffsetDelegation)))
	}

	return sum
}

func refMinDeposit(sp *iotago.StorageScoreParameters, o iotago.Output) *big.Int {
	return new(big.Int).Mul(bi(uint64(sp.StorageCost)), refStorageScore(sp, o))
}

// refReturnDeposit is the minimum deposit of the basic output which returns a storage deposit.
func refReturnDeposit(sp *iotago.StorageScoreParameters, addr iotago.Address) *big.Int {
	return refMinDeposit(sp, &iotago.BasicOutput{UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: addr}}})
}

// ---- work score ----

func refOutputWork(w *iotago.WorkScoreParameters, o iotago.Output) *big.Int {
	sum := bi(uint64(w.Output))
	feats, imm := refFeatList(o)
	for _, f := range append(append([]iotago.Feature{}, feats...), imm...) {
		switch f.(type) {
		case *iotago.NativeTokenFeature:
			mulAdd(sum, uint64(w.NativeToken), 1)
		case *iotago.BlockIssuerFeature:
			mulAdd(sum, uint64(w.BlockIssuer), 1)
		case *iotago.StakingFeature:
			mulAdd(sum, uint64(w.Staking), 1)
		}
	}
	if _, is := o.(*iotago.FoundryOutput); is {
		mulAdd(sum, uint64(w.NativeToken), 1)
	}

	return sum
}

func refTxWork(w *iotago.WorkScoreParameters, tx *iotago.Transaction) *big.Int {
	sum := new(big.Int)
	mulAdd(sum, uint64(w.ContextInput), uint64(len(tx.TransactionEssence.ContextInputs)))
	mulAdd(sum, uint64(w.Input), uint64(len(tx.TransactionEssence.Inputs)))
	mulAdd(sum, uint64(w.Allotment), uint64(len(tx.Allotments)))
	for _, o := range tx.Outputs {
		sum.Add(sum, refOutputWork(w, o))
	}

	return sum
}

func refCountSigs(us []iotago.Unlock) (n uint64) {
	for _, u := range us {
		switch u := u.(type) {
		case *iotago.SignatureUnlock:
			n++
		case *iotago.MultiUnlock:
			n += refCountSigs(u.Unlocks)
		}
	}

	return n
}

func refSignedTxWork(w *iotago.WorkScoreParameters, t *iotago.SignedTransaction) *big.Int {
	sum := refTxWork(w, t.Transaction)
	mulAdd(sum, uint64(w.Block), 1)
	mulAdd(sum, uint64(w.DataByte), uint64(len(refSignedTx(t))))
	mulAdd(sum, uint64(w.SignatureEd25519), refCountSigs(t.Unlocks))

	return sum
}

func refPayloadWork(w *iotago.WorkScoreParameters, p any) *big.Int {
	switch p := p.(type) {
	case nil:
		return bi(uint64(w.Block))
	case *iotago.SignedTransaction:
		return refSignedTxWork(w, p)
	default:
		sum := bi(uint64(w.Block))
		mulAdd(sum, uint64(w.DataByte), uint64(len(refPayload(p))))

		return sum
	}
}

func refBlockWork(w *iotago.WorkScoreParameters, b *iotago.Block) *big.Int {
	switch body := b.Body.(type) {
	case *iotago.BasicBlockBody:
		if body.Payload == nil {
			return refPayloadWork(w, nil)
		}

		return refPayloadWork(w, body.Payload)
	default:
		return new(big.Int)
	}
}
