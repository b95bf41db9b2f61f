package main

import (
	"fmt"
	"math/big"
	"math/rand"

	iotago "github.com/iotaledger/iota.go/v4"
)

func init() {
	register("P11", p11)
	register("P12", p12)
}

func genStorageParams(r *rand.Rand) *iotago.StorageScoreParameters {
	small := func() iotago.StorageScore { return iotago.StorageScore(r.Intn(1 << uint(r.Intn(24)))) }

	return &iotago.StorageScoreParameters{
		StorageCost:                 iotago.BaseToken([]uint64{0, 1, 100, uint64(r.Intn(1 << 20)), uint64(r.Int63()) >> uint(r.Intn(40))}[r.Intn(5)]),
		FactorData:                  iotago.StorageScoreFactor([]int{0, 1, 10, r.Intn(256)}[r.Intn(4)]),
		OffsetOutputOverhead:        small(),
		OffsetEd25519BlockIssuerKey: small(),
		OffsetStakingFeature:        small(),
		OffsetDelegation:            small(),
	}
}

func p11(c *Ctx) {
	c.Rule("random outputs of every type (every combination of unlock conditions, features, nested addresses incl. implicit account creation addresses) x random storage parameters; storage score and minimum deposit compared with big-integer arithmetic over the reference encoding; boundary amounts at, one below and one above the deposit; storage deposit return amounts; distinct = (output type, optional parts present, deposit bits).")
	c.Assume("Storage score parameters small enough that the storage score itself fits 64 bits.")

	c.Run("outputs", c.N(150000, 4000000), func(t *Case) {
		r := t.R
		var sp *iotago.StorageScoreParameters
		var st *iotago.StorageScoreStructure
		if coin(r, 3) {
			w := pickWorld(r)
			sp, st = w.PP.StorageScoreParameters(), w.API.StorageScoreStructure()
		} else {
			sp = genStorageParams(r)
			cp := *sp
			st = iotago.NewStorageScoreStructure(&cp)
		}
		o := genOutput(r)
		t.Note("params %+v output %s", *sp, fmt.Sprintf("%x", refOutput(o)))
		score := refStorageScore(sp, o)
		got := uint64(o.StorageScore(st, nil))
		t.Check(score.Cmp(bi(got)) == 0, fmt.Sprintf("storage-score:%s", o.Type()), "storage score %d, want %v", got, score)
		dep := refMinDeposit(sp, o)
		min, err := st.MinDeposit(o)
		if dep.BitLen() > 64 {
			t.Check(err != nil, "min-deposit:overflow", "deposit %v overflows, but MinDeposit returned %d", dep, min)
			_, err := st.CoversMinDeposit(o, ^iotago.BaseToken(0))
			t.Check(err != nil, "covers:overflow", "an unaffordable deposit is reported as covered")
		} else if t.Check(err == nil, "min-deposit:error", "error %v", err) {
			t.Check(dep.Cmp(bi(uint64(min))) == 0, fmt.Sprintf("min-deposit:%s", o.Type()), "min deposit %d, want %v", min, dep)
			for _, d := range []int64{-1, 0, 1, r.Int63() >> uint(r.Intn(62)), -(r.Int63() >> uint(r.Intn(62)))} {
				a := new(big.Int).Add(dep, big.NewInt(d))
				if !bfits(a, 64) {
					continue
				}
				ret, err := st.CoversMinDeposit(o, iotago.BaseToken(a.Uint64()))
				if t.Check((err == nil) == (d >= 0), "covers", "amount %v, min deposit %v: error %v", a, dep, err) && err == nil {
					t.Check(uint64(ret) == dep.Uint64(), "covers:value", "returned %d, want %v", ret, dep)
				}
			}
		}
		feats, imm := refFeatList(o)
		t.Eval(join("out", itoa(int(o.Type())), itoa(len(refUCList(o))), featMask(feats), featMask(imm), itoa(dep.BitLen())))
		t.Count("output type " + o.Type().String())

		addr := genAnyAddr(r)
		want := refReturnDeposit(sp, addr)
		ret, err := st.MinStorageDepositForReturnOutput(addr)
		if want.BitLen() > 64 {
			t.Check(err != nil, "return-deposit:overflow", "%v overflows, but %d was returned", want, ret)
		} else if t.Check(err == nil, "return-deposit:error", "error %v", err) {
			t.Check(want.Cmp(bi(uint64(ret))) == 0, "return-deposit", "deposit of the return output to %T is %d, want %v", addr, ret, want)
		}
		t.Eval(join("ret", itoa(int(addr.Type())), itoa(want.BitLen())))
		if t.Index < 3 {
			t.Sample(map[string]any{"type": o.Type().String(), "score": got, "minDeposit": dep.String()})
		}
	})

	// an implicit account can always be converted: the deposit of an output on an implicit address covers a minimal block issuer account
	c.Run("implicit", c.N(5000, 100000), func(t *Case) {
		r := t.R
		sp := genStorageParams(r)
		sp.StorageCost %= 1 << 24
		st := iotago.NewStorageScoreStructure(sp)
		k := keyPool[r.Intn(len(keyPool))]
		impl := &iotago.BasicOutput{UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: k.implicit()}}}
		acc := &iotago.AccountOutput{
			UnlockConditions: iotago.AccountOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: k.ed()}},
			Features:         iotago.AccountOutputFeatures{&iotago.BlockIssuerFeature{BlockIssuerKeys: iotago.BlockIssuerKeys{genBIKey(r)}}},
		}
		a, err1 := st.MinDeposit(impl)
		b, err2 := st.MinDeposit(acc)
		t.Eval(join("implicit", itoa(bi(uint64(a)).BitLen())))
		t.Check(err1 == nil && err2 == nil && a >= b, "implicit", "an implicit account creation output needs %d, the account it becomes %d (%v, %v)", a, b, err1, err2)
	})
}

func featMask(fs []iotago.Feature) string {
	m := 0
	for _, f := range fs {
		m |= 1 << uint(f.Type())
	}

	return itoa(m)
}

func genWorkParams(r *rand.Rand) *iotago.WorkScoreParameters {
	f := func() iotago.WorkScore {
		return iotago.WorkScore([]uint32{0, 1, uint32(r.Intn(1000)), uint32(r.Intn(1 << 17)), r.Uint32() >> uint(r.Intn(32))}[r.Intn(5)])
	}

	return &iotago.WorkScoreParameters{f(), f(), f(), f(), f(), f(), f(), f(), f(), f()}
}

func p12(c *Ctx) {
	c.Rule("random outputs, transactions, signed transactions, payloads and blocks x random work score parameters (zero, small, near overflow); work score and mana cost compared with big-integer arithmetic, overflow must be an error; every valid block's work compared with MaxBlockWork, including blocks built to maximise one kind of work; distinct = (kind, parts present, work bits).")
	c.Assume("Work scores count what the protocol lists (data bytes, inputs, outputs, native tokens, staking, issuers, allotments, signatures, context inputs).")

	judge := func(t *Case, kind string, want *big.Int, got iotago.WorkScore, err error) {
		if want.BitLen() > 32 {
			t.Check(err != nil, "work:"+kind+":overflow", "work %v overflows, but %d was returned", want, got)
			t.Count(kind + " overflow")

			return
		}
		if t.Check(err == nil, "work:"+kind+":error", "error %v, want %v", err, want) {
			t.Check(want.Cmp(bi(uint64(got))) == 0, "work:"+kind, "work %d, want %v", got, want)
			t.Count(kind)
		}
	}

	c.Run("objects", c.N(100000, 1500000), func(t *Case) {
		r := t.R
		wp := genWorkParams(r)
		w := pickWorld(r)
		t.Note("params %+v", *wp)
		o := genOutput(r)
		got, err := o.WorkScore(wp)
		judge(t, "output", refOutputWork(wp, o), got, err)
		feats, imm := refFeatList(o)
		t.Eval(join("out", itoa(int(o.Type())), featMask(feats), featMask(imm)))

		tx := genTx(r, w)
		got, err = tx.WorkScore(wp)
		judge(t, "transaction", refTxWork(wp, tx), got, err)
		t.Eval(join("tx", itoa(len(tx.TransactionEssence.Inputs)), itoa(len(tx.Outputs)), itoa(len(tx.Allotments)), itoa(len(tx.TransactionEssence.ContextInputs))))

		stx := genSignedTx(r, w)
		got, err = stx.WorkScore(wp)
		judge(t, "signed transaction", refSignedTxWork(wp, stx), got, err)
		t.Eval(join("stx", itoa(int(refCountSigs(stx.Unlocks))), itoa(len(stx.Unlocks)), itoa(refSignedTxWork(wp, stx).BitLen())))

		td := genTaggedData(r)
		got, err = td.WorkScore(wp)
		judge(t, "tagged data", refPayloadWork(wp, td), got, err)
		ca := &iotago.CandidacyAnnouncement{}
		got, err = ca.WorkScore(wp)
		judge(t, "candidacy announcement", refPayloadWork(wp, ca), got, err)
		t.Eval(join("payload", itoa(len(td.Data)/64), itoa(len(td.Tag))))
	})

	c.Run("blocks", c.N(20000, 500000), func(t *Case) {
		r := t.R
		w := pickWorld(r)
		wp := w.PP.WorkScoreParameters()
		b := genBlock(r, w)
		got, err := b.WorkScore()
		want := refBlockWork(wp, b)
		judge(t, "block", want, got, err)
		rmc := uint64(r.Int63()) >> uint(r.Intn(63))
		cost, err := b.ManaCost(iotago.Mana(rmc))
		wc := new(big.Int).Mul(want, bi(rmc))
		if wc.BitLen() > 64 {
			t.Check(err != nil, "mana-cost:overflow", "cost %v overflows, but %d was returned", wc, cost)
		} else if t.Check(err == nil, "mana-cost:error", "error %v", err) {
			t.Check(wc.Cmp(bi(uint64(cost))) == 0, "mana-cost", "mana cost %d, want %v", cost, wc)
		}
		t.Eval(join("block", itoa(want.BitLen()), itoa(wc.BitLen())))
		if len(refBlock(b)) <= iotago.MaxBlockSize {
			t.Check(want.Cmp(bi(uint64(w.API.MaxBlockWork()))) <= 0, "max-block-work", "a block has work %v, MaxBlockWork is %d", want, w.API.MaxBlockWork())
		}
	})

	// blocks which contain as much as possible of one kind of work, with parameters which weigh that kind alone or mostly
	c.Run("max", c.N(450, 9000), func(t *Case) {
		r := t.R
		w := pickWorld(r)
		kind := t.Index % 9
		one := func(weight int) iotago.WorkScore { return iotago.WorkScore(weight * r.Intn(2) * r.Intn(30)) }
		wp := iotago.WorkScoreParameters{one(0), one(1), one(1), one(1), one(1), one(1), one(1), one(1), one(1), one(1)}
		tx := &iotago.Transaction{API: w.API, TransactionEssence: &iotago.TransactionEssence{NetworkID: w.PP.NetworkID()}}
		nIn, nOut, nCtx, nAll := 1, 1, 0, 0
		mk := func() iotago.Output {
			return &iotago.BasicOutput{UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: keyPool[0].ed()}}}
		}
		heavy := iotago.WorkScore(10000)
		switch kind {
		case 0:
			wp.NativeToken, nOut = heavy, 128
			mk = func() iotago.Output {
				f := &iotago.FoundryOutput{TokenScheme: &iotago.SimpleTokenScheme{MintedTokens: big.NewInt(1), MeltedTokens: big.NewInt(0), MaximumSupply: big.NewInt(2)},
					UnlockConditions: iotago.FoundryOutputUnlockConditions{&iotago.ImmutableAccountUnlockCondition{Address: &iotago.AccountAddress{}}}}
				f.Features = iotago.FoundryOutputFeatures{&iotago.NativeTokenFeature{ID: f.MustNativeTokenID(), Amount: big.NewInt(1)}}

				return f
			}
		case 1:
			wp.Input, nIn = heavy, 128
		case 2:
			wp.Output, nOut = heavy, 128
		case 3:
			wp.ContextInput, nCtx = heavy, 128
		case 4:
			wp.Allotment, nAll = heavy, 128
		case 5:
			wp.Staking, wp.BlockIssuer, nOut = heavy, heavy/2, 128
			mk = func() iotago.Output {
				return &iotago.AccountOutput{UnlockConditions: iotago.AccountOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: keyPool[0].ed()}},
					Features: iotago.AccountOutputFeatures{&iotago.BlockIssuerFeature{BlockIssuerKeys: iotago.BlockIssuerKeys{genBIKey(r)}}, &iotago.StakingFeature{}}}
			}
		case 6:
			wp.SignatureEd25519, nIn = heavy, 24
		case 7:
			wp.DataByte = heavy
		case 8:
			wp.Block = heavy
		}
		for i := 0; i < nIn; i++ {
			tx.TransactionEssence.Inputs = append(tx.TransactionEssence.Inputs, &iotago.UTXOInput{TransactionID: iotago.TransactionID(rbytes(r, 36))})
		}
		for i := 0; i < nCtx; i++ {
			tx.TransactionEssence.ContextInputs = append(tx.TransactionEssence.ContextInputs, &iotago.RewardInput{Index: uint16(i)})
		}
		for i := 0; i < nAll; i++ {
			tx.Allotments = append(tx.Allotments, &iotago.Allotment{AccountID: iotago.AccountID(r32(r))})
		}
		for i := 0; i < nOut; i++ {
			tx.Outputs = append(tx.Outputs, mk())
		}
		stx := &iotago.SignedTransaction{API: w.API, Transaction: tx}
		sig := func() *iotago.SignatureUnlock { return &iotago.SignatureUnlock{Signature: &iotago.Ed25519Signature{}} }
		for i := 0; i < nIn; i++ {
			switch {
			case kind == 6:
				m := &iotago.MultiUnlock{}
				for j := 0; j < 10; j++ {
					m.Unlocks = append(m.Unlocks, sig())
				}
				stx.Unlocks = append(stx.Unlocks, m)
			case i == 0:
				stx.Unlocks = append(stx.Unlocks, sig())
			default:
				stx.Unlocks = append(stx.Unlocks, &iotago.ReferenceUnlock{})
			}
		}
		if kind == 7 {
			td := &iotago.TaggedData{Tag: rbytes(r, 64), Data: rbytes(r, 8192)}
			tx.TransactionEssence.Payload = td
		}
		size := len(refSignedTx(stx))
		if size > iotago.MaxPayloadSize {
			t.Count("max: too large")

			return
		}
		want := refSignedTxWork(&wp, stx)
		got, err := stx.WorkScore(&wp)
		judge(t, "maximal block", want, got, err)
		mx, err := wp.MaxBlockWork()
		if t.Check(err == nil, "max-block-work:error", "error %v", err) {
			t.Check(want.Cmp(bi(uint64(mx))) <= 0, "max-block-work", "kind %d: a block of %d bytes payload has work %v, MaxBlockWork is %d (params %+v)", kind, size, want, mx, wp)
		}
		t.Eval(join("max", itoa(kind), fmt.Sprint(wp)))
	})

	c.Run("arithmetic", c.N(5000, 100000), func(t *Case) {
		r := t.R
		var sum = new(big.Int)
		a := iotago.WorkScore(r.Uint32() >> uint(r.Intn(32)))
		sum.Add(sum, bi(uint64(a)))
		var in []iotago.WorkScore
		for i := r.Intn(5); i > 0; i-- {
			v := r.Uint32() >> uint(r.Intn(32))
			in = append(in, iotago.WorkScore(v))
			sum.Add(sum, bi(uint64(v)))
		}
		got, err := a.Add(in...)
		judge(t, "sum", sum, got, err)
		m := r.Intn(1 << uint(r.Intn(31)))
		got, err = a.Multiply(m)
		judge(t, "product", mul(bi(uint64(a)), uint64(m)), got, err)
		t.Eval(join("arith", itoa(sum.BitLen()), itoa(len(in))))
	})
}
