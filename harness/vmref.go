package main

// Reference semantics of transaction execution, written against the field values of the objects, independent of the vm packages.

import (
	"bytes"
	"crypto/ed25519"
	"fmt"
	"math/big"
	"sort"
	"strings"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/vm"
)

// vmScene is a signed transaction together with everything a node resolves for it.
type vmScene struct {
	w          *World
	stx        *iotago.SignedTransaction
	ids        []iotago.OutputID
	ins        []iotago.Output // in the order of the transaction's inputs
	commitment *iotago.Commitment
	bic        map[iotago.AccountID]int64
	rewards    map[int]uint64 // input index -> reward
	kinds      map[string]bool

	unlocks *refUnlockState // filled by refVM
}

func (sc *vmScene) resolved() vm.ResolvedInputs {
	res := vm.ResolvedInputs{
		InputSet:                    vm.InputSet{},
		BlockIssuanceCreditInputSet: vm.BlockIssuanceCreditInputSet{},
		RewardsInputSet:             vm.RewardsInputSet{},
	}
	for i, id := range sc.ids {
		res.InputSet[id] = sc.ins[i]
	}
	if sc.commitment != nil {
		res.CommitmentInput = sc.commitment
	}
	for id, v := range sc.bic {
		res.BlockIssuanceCreditInputSet[id] = iotago.BlockIssuanceCredits(v)
	}
	for i, v := range sc.rewards {
		switch o := sc.ins[i].(type) {
		case *iotago.AccountOutput:
			res.RewardsInputSet[iotago.AccountID(refChain32(o.AccountID, sc.ids[i]))] = iotago.Mana(v)
		case *iotago.DelegationOutput:
			res.RewardsInputSet[iotago.DelegationID(refChain32(o.DelegationID, sc.ids[i]))] = iotago.Mana(v)
		}
	}

	return res
}

func refChain32(id [32]byte, out iotago.OutputID) [32]byte {
	if zero32(id) {
		return blake(out[:])
	}

	return id
}

// chainOf returns a key for the chain an output belongs to, and the address of the chain if it has one.
func chainOf(o iotago.Output, id iotago.OutputID) (key string, addr iotago.Address) {
	switch o := o.(type) {
	case *iotago.AccountOutput:
		x := refChain32(o.AccountID, id)
		a := iotago.AccountAddress(x)

		return "account" + string(x[:]), &a
	case *iotago.AnchorOutput:
		x := refChain32(o.AnchorID, id)
		a := iotago.AnchorAddress(x)

		return "anchor" + string(x[:]), &a
	case *iotago.NFTOutput:
		x := refChain32(o.NFTID, id)
		a := iotago.NFTAddress(x)

		return "nft" + string(x[:]), &a
	case *iotago.DelegationOutput:
		x := refChain32(o.DelegationID, id)

		return "delegation" + string(x[:]), nil
	case *iotago.FoundryOutput:
		x := refFoundryID(o)

		return "foundry" + string(x[:]), nil
	case *iotago.BasicOutput:
		if isImplicit(addrUC(o)) {
			x := blake(id[:])

			return "account" + string(x[:]), nil
		}
	}

	return "", nil
}

func addrUC(o iotago.Output) iotago.Address {
	for _, u := range refUCList(o) {
		switch u := u.(type) {
		case *iotago.AddressUnlockCondition:
			return u.Address
		case *iotago.ImmutableAccountUnlockCondition:
			return u.Address
		}
	}

	return nil
}

func getUC[T iotago.UnlockCondition](o iotago.Output) (t T, ok bool) {
	for _, u := range refUCList(o) {
		if x, is := u.(T); is {
			return x, true
		}
	}

	return t, false
}

func getFeat[T iotago.Feature](o iotago.Output) (t T, ok bool) {
	f, _ := refFeatList(o)
	for _, x := range f {
		if x, is := x.(T); is {
			return x, true
		}
	}

	return t, false
}

func getImm[T iotago.Feature](o iotago.Output) (t T, ok bool) {
	_, f := refFeatList(o)
	for _, x := range f {
		if x, is := x.(T); is {
			return x, true
		}
	}

	return t, false
}

func underlying(a iotago.Address) iotago.Address {
	if x, is := a.(*iotago.RestrictedAddress); is {
		return x.Address
	}

	return a
}

func akey(a iotago.Address) string { return string(refAddr(a)) }

func encFeats(fs []iotago.Feature) string {
	var b strings.Builder
	for _, f := range fs {
		b.Write(refFeature(f))
		b.WriteByte(0xfe)
	}

	return b.String()
}

// verdict collects the violated rules by category.
type verdict map[string]string

func (v verdict) add(cat, format string, args ...any) {
	if _, is := v[cat]; !is {
		v[cat] = fmt.Sprintf(format, args...)
	}
}

func (v verdict) String() string {
	var l []string
	for k, r := range v {
		l = append(l, k+"="+r)
	}
	sort.Strings(l)

	return strings.Join(l, " ")
}

type refUnlockState struct {
	sigAt    map[int][]byte // input index -> public key of the signature which unlocked it
	at       map[string]int // unlocked address -> index at which it was unlocked
	unlocker []string       // per input: the address which unlocked it
}

// refVM evaluates all rules. Categories: unlock, base, nt, mana, chain, feat.
func refVM(sc *vmScene, rec ...*[]string) verdict {
	v := verdict{}
	add := func(cat, format string, args ...any) {
		v.add(cat, format, args...)
		for _, l := range rec {
			*l = append(*l, fmt.Sprintf(format, args...))
		}
	}
	tx := sc.stx.Transaction
	pp := sc.w.PP
	clk := clockOf(pp)
	txID := refTxID(tx)
	create := uint64(tx.TransactionEssence.CreationSlot)

	outChains := map[string]iotago.Output{}
	for i, o := range tx.Outputs {
		if b, is := o.(*iotago.BasicOutput); is {
			_ = b // a basic output on the output side is no chain yet

			continue
		}
		if k, _ := chainOf(o, refOutputID(txID, uint16(i))); k != "" {
			outChains[k] = o
		}
	}
	inChains := map[string]int{}
	for i, o := range sc.ins {
		if k, _ := chainOf(o, sc.ids[i]); k != "" {
			inChains[k] = i
		}
	}

	var past, future uint64
	if sc.commitment != nil {
		past = uint64(sc.commitment.Slot) + uint64(pp.MaxCommittableAge())
		future = uint64(sc.commitment.Slot) + uint64(pp.MinCommittableAge())
	}

	// ---- unlocking ----
	st := &refUnlockState{sigAt: map[int][]byte{}, at: map[string]int{}, unlocker: make([]string, len(sc.ins))}
	msg := blake(refTx(tx))
	for i, o := range sc.ins {
		if reason := refUnlockInput(sc, st, outChains, i, o, msg[:], past, future); reason != "" {
			add("unlock", "input %d: %s", i, reason)

			break
		}
		if k, a := chainOf(o, sc.ids[i]); a != nil {
			if an, is := o.(*iotago.AnchorOutput); is {
				next, has := outChains[k].(*iotago.AnchorOutput)
				if !has || next.StateIndex != an.StateIndex+1 {
					continue
				}
			}
			st.at[akey(a)] = i
		}
	}
	unlocked := v["unlock"] == ""
	sc.unlocks = st

	for i, o := range sc.ins {
		if tl, has := getUC[*iotago.TimelockUnlockCondition](o); has {
			switch {
			case sc.commitment == nil:
				add("unlock", "input %d: timelock without commitment", i)
			case uint64(tl.Slot) > future:
				add("unlock", "input %d: timelocked until %d, future bounded slot %d", i, tl.Slot, future)
			}
		}
	}

	// ---- base tokens and storage deposit return ----
	in, out := new(big.Int), new(big.Int)
	owed, paid := map[string]*big.Int{}, map[string]*big.Int{}
	for i, o := range sc.ins {
		in.Add(in, bi(refAmount(o)))
		if sdr, has := getUC[*iotago.StorageDepositReturnUnlockCondition](o); has {
			k := akey(sdr.ReturnAddress)
			if st.unlocker[i] == k {
				continue
			}
			if owed[k] == nil {
				owed[k] = new(big.Int)
			}
			owed[k].Add(owed[k], bi(uint64(sdr.Amount)))
		}
	}
	for _, o := range tx.Outputs {
		out.Add(out, bi(refAmount(o)))
		if b, is := o.(*iotago.BasicOutput); is && len(b.UnlockConditions) == 1 && len(b.Features) == 0 {
			k := akey(addrUC(b))
			if paid[k] == nil {
				paid[k] = new(big.Int)
			}
			paid[k].Add(paid[k], bi(refAmount(o)))
		}
	}
	if in.Cmp(out) != 0 {
		add("base", "in %s out %s", in, out)
	}
	if unlocked {
		for k, amount := range owed {
			if paid[k] == nil || paid[k].Cmp(amount) < 0 {
				add("base", "storage deposit of %s is not returned to %x (paid %v)", amount, k, paid[k])
			}
		}
	}

	// ---- native tokens ----
	caps := tx.TransactionEssence.Capabilities
	inNT, outNT := map[string]*big.Int{}, map[string]*big.Int{}
	sumNT := func(m map[string]*big.Int, o iotago.Output) {
		if f, has := getFeat[*iotago.NativeTokenFeature](o); has {
			k := string(f.ID[:])
			if m[k] == nil {
				m[k] = new(big.Int)
			}
			m[k].Add(m[k], f.Amount)
			if m[k].BitLen() > 256 {
				add("nt", "sum of %x overflows", f.ID[:])
			}
		}
	}
	for _, o := range sc.ins {
		sumNT(inNT, o)
	}
	for _, o := range tx.Outputs {
		sumNT(outNT, o)
	}
	zero := new(big.Int)
	val := func(m map[string]*big.Int, k string) *big.Int {
		if m[k] == nil {
			return zero
		}

		return m[k]
	}
	for _, m := range []map[string]*big.Int{inNT, outNT} {
		for k := range m {
			if outChains["foundry"+k] != nil {
				continue
			}
			switch c := val(outNT, k).Cmp(val(inNT, k)); {
			case c > 0:
				add("nt", "token %x: out %s > in %s without its foundry", k, val(outNT, k), val(inNT, k))
			case c < 0 && !refCap(caps, 0):
				add("nt", "token %x: in %s > out %s without permission to burn", k, val(inNT, k), val(outNT, k))
			}
		}
	}
	schemeCheck := func(cur, next *iotago.FoundryOutput) {
		f := cur
		if f == nil {
			f = next
		}
		id := refFoundryID(f)
		k := string(id[:])
		diff := new(big.Int).Sub(val(outNT, k), val(inNT, k))
		switch {
		case cur == nil:
			s := next.TokenScheme.(*iotago.SimpleTokenScheme)
			if s.MeltedTokens.Sign() != 0 || s.MintedTokens.Cmp(val(outNT, k)) != 0 {
				add("nt", "foundry genesis minted %s melted %s but out %s", s.MintedTokens, s.MeltedTokens, val(outNT, k))
			}
		case next == nil:
			s := cur.TokenScheme.(*iotago.SimpleTokenScheme)
			circ := new(big.Int).Sub(s.MintedTokens, s.MeltedTokens)
			if circ.Add(circ, diff).Sign() != 0 {
				add("nt", "foundry destroyed but %s tokens remain", circ)
			}
		default:
			a, b := cur.TokenScheme.(*iotago.SimpleTokenScheme), next.TokenScheme.(*iotago.SimpleTokenScheme)
			dm, db := new(big.Int).Sub(b.MintedTokens, a.MintedTokens), new(big.Int).Sub(b.MeltedTokens, a.MeltedTokens)
			wantM, wantB := new(big.Int), new(big.Int)
			if diff.Sign() > 0 {
				wantM = diff
			} else {
				wantB.Neg(diff)
			}
			if a.MaximumSupply.Cmp(b.MaximumSupply) != 0 || dm.Cmp(wantM) != 0 || db.Cmp(wantB) != 0 {
				add("nt", "foundry transition minted +%s melted +%s with token difference %s (max %s -> %s)", dm, db, diff, a.MaximumSupply, b.MaximumSupply)
			}
		}
	}

	// ---- chains ----
	implicit := 0
	for _, o := range sc.ins {
		if b, is := o.(*iotago.BasicOutput); is && isImplicit(addrUC(b)) {
			implicit++
		}
	}
	if implicit > 1 {
		add("chain", "%d implicit accounts", implicit)
	}
	issuerOK := func(o iotago.Output) {
		if !unlocked {
			return
		}
		if f, has := getImm[*iotago.IssuerFeature](o); has {
			if _, is := st.at[akey(underlying(f.Address))]; !is {
				add("feat", "issuer is not unlocked")
			}
		}
	}
	mana := manaOf(pp)
	manaIn, manaOut := new(big.Int), new(big.Int)
	ownMana := func(i int) *big.Int {
		slot := refIDSlot(sc.ids[i])
		s := mana.decaySlots(bi(refStoredMana(sc.ins[i])), slot, create)
		p := refPotentialMana(pp, sc.ins[i], iotago.SlotIndex(slot), iotago.SlotIndex(create))
		if s == nil || p == nil || slot > create {
			return nil
		}

		return s.Add(s, p)
	}
	for i := range sc.ins {
		m := ownMana(i)
		if m == nil {
			add("mana", "input %d is younger than the transaction", i)

			continue
		}
		manaIn.Add(manaIn, m)
	}
	for _, x := range sc.rewards {
		manaIn.Add(manaIn, bi(x))
	}
	for _, o := range tx.Outputs {
		manaOut.Add(manaOut, bi(refStoredMana(o)))
	}
	for _, a := range tx.TransactionEssence.Allotments {
		manaOut.Add(manaOut, bi(uint64(a.Mana)))
	}
	if manaIn.BitLen() > 64 || manaOut.BitLen() > 64 {
		add("mana", "overflow")
	}
	if v["mana"] == "" {
		switch c := manaIn.Cmp(manaOut); {
		case c < 0:
			add("mana", "in %s < out %s", manaIn, manaOut)
		case c > 0 && !refCap(caps, 1):
			add("mana", "in %s > out %s without permission to burn", manaIn, manaOut)
		}
	}
	bicOK := func(id [32]byte) {
		x, has := sc.bic[iotago.AccountID(id)]
		if !has {
			add("chain", "block issuance credit input missing")
		} else if x < 0 {
			add("chain", "account locked")
		}
	}
	stakingNew := func(s *iotago.StakingFeature) {
		e := clk.epoch(past)
		if uint64(s.StartEpoch) != e {
			add("chain", "staking start epoch %d, want %d", s.StartEpoch, e)
		}
		if uint64(s.EndEpoch) < e+uint64(pp.StakingUnbondingPeriod()) {
			add("chain", "staking end epoch %d too early", s.EndEpoch)
		}
	}
	accountNew := func(o *iotago.AccountOutput) {
		if f, has := getFeat[*iotago.BlockIssuerFeature](o); has && uint64(f.ExpirySlot) < past {
			add("chain", "new block issuer expiry %d < %d", f.ExpirySlot, past)
		}
		if f, has := getFeat[*iotago.StakingFeature](o); has {
			stakingNew(f)
		}
		issuerOK(o)
	}
	// blockIssuer checks a transition of the block issuer feature and that mana does not leave the account.
	blockIssuer := func(i int, hasCur bool, curExpiry uint64, next *iotago.AccountOutput) {
		nf, hasNext := getFeat[*iotago.BlockIssuerFeature](next)
		if !hasCur && !hasNext {
			return
		}
		if sc.commitment == nil {
			add("chain", "block issuer without commitment")

			return
		}
		if hasCur && curExpiry >= uint64(sc.commitment.Slot) {
			if !hasNext {
				add("chain", "unexpired block issuer removed")
			} else if uint64(nf.ExpirySlot) != curExpiry && uint64(nf.ExpirySlot) < past {
				add("chain", "block issuer expiry %d -> %d < %d", curExpiry, nf.ExpirySlot, past)
			}
		} else if hasNext && uint64(nf.ExpirySlot) < past {
			add("chain", "added block issuer expiry %d < %d", nf.ExpirySlot, past)
		}
		own := ownMana(i)
		if own == nil {
			return
		}
		mi, mo := new(big.Int).Sub(manaIn, own), new(big.Int).Sub(manaOut, bi(uint64(next.Mana)))
		for _, a := range tx.TransactionEssence.Allotments {
			if a.AccountID == next.AccountID {
				mo.Sub(mo, bi(uint64(a.Mana)))
			}
		}
		lock := past + uint64(pp.MaxCommittableAge())
		for _, o := range tx.Outputs {
			tl, has := getUC[*iotago.TimelockUnlockCondition](o)
			if !has || uint64(tl.Slot) <= lock {
				continue
			}
			if a, is := addrUC(o).(*iotago.AccountAddress); is && [32]byte(*a) == [32]byte(next.AccountID) {
				mo.Sub(mo, bi(refStoredMana(o)))
			}
		}
		if mi.Cmp(mo) < 0 {
			add("mana", "mana moved off a block issuer account: others in %s, others out %s", mi, mo)
		}
	}
	keys := func(m map[string]int) (l []string) {
		for k := range m {
			l = append(l, k)
		}
		sort.Strings(l)

		return l
	}
	for _, k := range keys(inChains) {
		i := inChains[k]
		next := outChains[k]
		switch cur := sc.ins[i].(type) {
		case *iotago.BasicOutput:
			n, is := next.(*iotago.AccountOutput)
			if !is {
				add("chain", "implicit account destroyed")

				continue
			}
			bicOK(blake(sc.ids[i][:]))
			if f, has := getFeat[*iotago.BlockIssuerFeature](n); !has {
				add("chain", "implicit account without block issuer")
			} else {
				_ = f
			}
			blockIssuer(i, true, 1<<32-1, n)
			accountNew(n)
		case *iotago.AccountOutput:
			rewardClaimed := false
			if _, has := sc.rewards[i]; has {
				rewardClaimed = true
			}
			removing := false
			cs, hasCS := getFeat[*iotago.StakingFeature](cur)
			cb, hasCB := getFeat[*iotago.BlockIssuerFeature](cur)
			if next == nil {
				if !refCap(caps, 2) {
					add("chain", "account destroyed without permission")
				}
				if hasCB {
					switch {
					case sc.commitment == nil:
						add("chain", "block issuer destroyed without commitment")
					case uint64(cb.ExpirySlot) >= uint64(sc.commitment.Slot):
						add("chain", "account with unexpired block issuer destroyed")
					}
					bicOK(refChain32(cur.AccountID, sc.ids[i]))
				}
				if hasCS {
					if sc.commitment == nil || clk.epoch(future) <= uint64(cs.EndEpoch) {
						add("chain", "account with unexpired staking destroyed")
					}
					removing = true
				}
			} else {
				n := next.(*iotago.AccountOutput)
				_, ci := refFeatList(cur)
				_, ni := refFeatList(n)
				if encFeats(ci) != encFeats(ni) {
					add("chain", "immutable features changed")
				}
				if hasCB {
					bicOK(refChain32(cur.AccountID, sc.ids[i]))
				}
				ns, hasNS := getFeat[*iotago.StakingFeature](n)
				switch {
				case hasCS && sc.commitment == nil:
					add("chain", "staking without commitment")
				case hasCS && clk.epoch(future) <= uint64(cs.EndEpoch):
					switch {
					case !hasNS:
						add("chain", "unexpired staking removed")
					case cs.StakedAmount != ns.StakedAmount || cs.FixedCost != ns.FixedCost || cs.StartEpoch != ns.StartEpoch:
						add("chain", "unexpired staking modified")
					case cs.EndEpoch != ns.EndEpoch && uint64(ns.EndEpoch) < clk.epoch(past)+uint64(pp.StakingUnbondingPeriod()):
						add("chain", "staking end epoch %d -> %d too early", cs.EndEpoch, ns.EndEpoch)
					}
				case hasCS && !hasNS:
					removing = true
				case hasCS && !bytes.Equal(refFeature(cs), refFeature(ns)):
					stakingNew(ns)
					removing = true
				case !hasCS && hasNS:
					stakingNew(ns)
				}
				made := uint64(0)
				for _, o := range tx.Outputs {
					if f, is := o.(*iotago.FoundryOutput); is {
						fk, _ := chainOf(f, iotago.OutputID{})
						if _, old := inChains[fk]; !old && akey(addrUC(f)) == string(append([]byte{8}, n.AccountID[:]...)) {
							made++
						}
					}
				}
				if n.FoundryCounter < cur.FoundryCounter || uint64(n.FoundryCounter-cur.FoundryCounter) != made && n.FoundryCounter != cur.FoundryCounter {
					add("chain", "foundry counter %d -> %d with %d new foundries", cur.FoundryCounter, n.FoundryCounter, made)
				}
				exp := uint64(0)
				if hasCB {
					exp = uint64(cb.ExpirySlot)
				}
				blockIssuer(i, hasCB, exp, n)
			}
			if rewardClaimed != removing {
				add("chain", "reward claimed: %v, staking removed: %v", rewardClaimed, removing)
			}
		case *iotago.AnchorOutput:
			if next == nil {
				if !refCap(caps, 3) {
					add("chain", "anchor destroyed without permission")
				}

				continue
			}
			n := next.(*iotago.AnchorOutput)
			cf, ci := refFeatList(cur)
			nf, ni := refFeatList(n)
			if encFeats(ci) != encFeats(ni) {
				add("chain", "immutable features changed")
			}
			of := func(l []iotago.Feature, typ int) string {
				for _, f := range l {
					if refFeatType(f) == typ {
						return string(refFeature(f))
					}
				}

				return ""
			}
			if n.StateIndex == cur.StateIndex {
				if n.Amount != cur.Amount {
					add("chain", "anchor amount changed by governor")
				}
				if of(cf, 3) != of(nf, 3) {
					add("chain", "anchor state metadata changed by governor")
				}

				continue
			}
			if n.StateIndex != cur.StateIndex+1 {
				add("chain", "anchor state index %d -> %d", cur.StateIndex, n.StateIndex)
			}
			for _, typ := range []int{4, 5} {
				if akey(anchorAddr(cur, typ)) != akey(anchorAddr(n, typ)) {
					add("chain", "anchor controller changed by state controller")
				}
			}
			if of(cf, 2) != of(nf, 2) {
				add("chain", "anchor metadata changed by state controller")
			}
		case *iotago.FoundryOutput:
			if next == nil {
				if !refCap(caps, 4) {
					add("chain", "foundry destroyed without permission")
				}
				schemeCheck(cur, nil)

				continue
			}
			n := next.(*iotago.FoundryOutput)
			_, ci := refFeatList(cur)
			_, ni := refFeatList(n)
			if encFeats(ci) != encFeats(ni) {
				add("chain", "immutable features changed")
			}
			schemeCheck(cur, n)
		case *iotago.NFTOutput:
			if next == nil {
				if !refCap(caps, 5) {
					add("chain", "nft destroyed without permission")
				}

				continue
			}
			_, ci := refFeatList(cur)
			_, ni := refFeatList(next)
			if encFeats(ci) != encFeats(ni) {
				add("chain", "immutable features changed")
			}
		case *iotago.DelegationOutput:
			_, claimed := sc.rewards[i]
			if next == nil {
				if !claimed {
					add("chain", "delegation destroyed without reward")
				}

				continue
			}
			n := next.(*iotago.DelegationOutput)
			if claimed {
				add("chain", "delegation transition claims reward")
			}
			if !zero32(cur.DelegationID) {
				add("chain", "delegation transitioned twice")
			}
			if cur.DelegatedAmount != n.DelegatedAmount || *cur.ValidatorAddress != *n.ValidatorAddress || cur.StartEpoch != n.StartEpoch {
				add("chain", "delegation modified")
			}
			if sc.commitment == nil {
				add("chain", "delegation without commitment")

				continue
			}
			e := clk.epoch(future)
			if future > clk.end(e)-uint64(pp.EpochNearingThreshold()) {
				e++
			}
			if uint64(n.EndEpoch) != e {
				add("chain", "delegation end epoch %d, want %d", n.EndEpoch, e)
			}
		}
	}
	for oi, next := range tx.Outputs {
		if _, is := next.(*iotago.BasicOutput); is {
			continue
		}
		k, _ := chainOf(next, refOutputID(txID, uint16(oi)))
		if _, has := inChains[k]; has {
			continue
		}
		switch n := next.(type) {
		case *iotago.AccountOutput:
			if !zero32(n.AccountID) {
				add("chain", "new account with ID")
			}
			accountNew(n)
		case *iotago.AnchorOutput:
			if !zero32(n.AnchorID) {
				add("chain", "new anchor with ID")
			}
			issuerOK(n)
		case *iotago.NFTOutput:
			if !zero32(n.NFTID) {
				add("chain", "new nft with ID")
			}
			issuerOK(n)
		case *iotago.DelegationOutput:
			if !zero32(n.DelegationID) {
				add("chain", "new delegation with ID")
			}
			if sc.commitment == nil {
				add("chain", "delegation without commitment")

				continue
			}
			e := clk.epoch(past)
			want := e + 1
			if past > clk.end(e)-uint64(pp.EpochNearingThreshold()) {
				want = e + 2
			}
			if uint64(n.StartEpoch) != want {
				add("chain", "delegation start epoch %d, want %d", n.StartEpoch, want)
			}
			if n.DelegatedAmount != n.Amount {
				add("chain", "delegated amount")
			}
			if n.EndEpoch != 0 {
				add("chain", "delegation end epoch not zero")
			}
		case *iotago.FoundryOutput:
			schemeCheck(nil, n)
			acc := "account" + akey(addrUC(n))[1:]
			i, has := inChains[acc]
			var inAcc *iotago.AccountOutput
			if has {
				inAcc, _ = sc.ins[i].(*iotago.AccountOutput)
			}
			outAcc, _ := outChains[acc].(*iotago.AccountOutput)
			if inAcc == nil || outAcc == nil {
				add("chain", "new foundry without its account")

				continue
			}
			if n.SerialNumber <= inAcc.FoundryCounter || n.SerialNumber > outAcc.FoundryCounter {
				add("chain", "foundry serial %d outside of (%d,%d]", n.SerialNumber, inAcc.FoundryCounter, outAcc.FoundryCounter)
			}
			for _, o := range tx.Outputs[:oi] {
				f, is := o.(*iotago.FoundryOutput)
				if !is {
					continue
				}
				fk, _ := chainOf(f, iotago.OutputID{})
				if _, old := inChains[fk]; !old && akey(addrUC(f)) == akey(addrUC(n)) && f.SerialNumber >= n.SerialNumber {
					add("chain", "foundry serials %d, %d not in order", f.SerialNumber, n.SerialNumber)
				}
			}
		}
	}

	// ---- senders ----
	if unlocked {
		for i, o := range tx.Outputs {
			if f, has := getFeat[*iotago.SenderFeature](o); has {
				if _, is := st.at[akey(underlying(f.Address))]; !is {
					add("feat", "sender of output %d is not unlocked", i)
				}
			}
		}
	}

	return v
}

func anchorAddr(o *iotago.AnchorOutput, typ int) iotago.Address {
	for _, u := range refUCList(o) {
		switch u := u.(type) {
		case *iotago.StateControllerAddressUnlockCondition:
			if typ == 4 {
				return u.Address
			}
		case *iotago.GovernorAddressUnlockCondition:
			if typ == 5 {
				return u.Address
			}
		}
	}

	return nil
}

func refIDSlot(id iotago.OutputID) uint64 {
	return uint64(id[32]) | uint64(id[33])<<8 | uint64(id[34])<<16 | uint64(id[35])<<24
}

// refOwner returns the address which has to unlock the input.
func refOwner(sc *vmScene, outChains map[string]iotago.Output, i int, o iotago.Output, past, future uint64) (iotago.Address, string) {
	var owner iotago.Address
	if an, is := o.(*iotago.AnchorOutput); is {
		k, _ := chainOf(o, sc.ids[i])
		owner = anchorAddr(an, 5)
		if next, has := outChains[k].(*iotago.AnchorOutput); has {
			switch next.StateIndex {
			case an.StateIndex:
			case an.StateIndex + 1:
				owner = anchorAddr(an, 4)
			default:
				return nil, "anchor state index"
			}
		}
	} else {
		owner = addrUC(o)
	}
	if exp, has := getUC[*iotago.ExpirationUnlockCondition](o); has {
		switch {
		case sc.commitment == nil:
			return nil, "expiration without commitment"
		case future >= uint64(exp.Slot):
			owner = exp.ReturnAddress
		case past >= uint64(exp.Slot):
			return nil, "neither owner nor return address can unlock"
		}
	}

	return underlying(owner), ""
}

func refUnlockInput(sc *vmScene, st *refUnlockState, outChains map[string]iotago.Output, i int, o iotago.Output, msg []byte, past, future uint64) string {
	owner, reason := refOwner(sc, outChains, i, o, past, future)
	if reason != "" {
		return reason
	}
	reason = refUnlockAddr(st, owner, sc.stx.Unlocks[i], i, msg, false)
	if reason == "" {
		st.unlocker[i] = akey(owner)
	}

	return reason
}

func refUnlockAddr(st *refUnlockState, owner iotago.Address, u iotago.Unlock, i int, msg []byte, nested bool) string {
	k := akey(owner)
	switch owner := owner.(type) {
	case *iotago.AccountAddress, *iotago.AnchorAddress, *iotago.NFTAddress:
		ref := -1
		switch u := u.(type) {
		case *iotago.AccountUnlock:
			if k[0] == 8 {
				ref = int(u.Reference)
			}
		case *iotago.NFTUnlock:
			if k[0] == 16 {
				ref = int(u.Reference)
			}
		case *iotago.AnchorUnlock:
			if k[0] == 24 {
				ref = int(u.Reference)
			}
		}
		if ref < 0 {
			return "wrong kind of unlock for a chain address"
		}
		if at, has := st.at[k]; !has || at != ref {
			return "chain address is not unlocked at the reference"
		}

		return ""
	case *iotago.Ed25519Address, *iotago.ImplicitAccountCreationAddress:
		switch u := u.(type) {
		case *iotago.SignatureUnlock:
			sig := refSig(u.Signature)
			if _, has := st.at[k]; has {
				return "address is already unlocked"
			}
			h := blake(sig[1:33])
			if string(h[:]) != k[1:] {
				return "public key does not match"
			}
			if !ed25519.Verify(sig[1:33], msg, sig[33:]) {
				return "bad signature"
			}
			if !nested {
				st.at[k] = i
				st.sigAt[i] = append([]byte{}, sig[1:33]...)
			}

			return ""
		case *iotago.ReferenceUnlock:
			pub, has := st.sigAt[int(u.Reference)]
			if !has {
				return "no signature at the reference"
			}
			h := blake(pub)
			if string(h[:]) != k[1:] {
				return "referenced signature belongs to another address"
			}
			if _, has := st.at[k]; !has && !nested {
				st.at[k] = i
			}

			return ""
		}

		return "wrong kind of unlock for a direct address"
	case *iotago.MultiAddress:
		switch u := u.(type) {
		case *iotago.ReferenceUnlock:
			if at, has := st.at[k]; !has || at != int(u.Reference) {
				return "multi address is not unlocked at the reference"
			}

			return ""
		case *iotago.MultiUnlock:
			if _, has := st.at[k]; has {
				return "multi address is already unlocked"
			}
			if len(u.Unlocks) != len(owner.Addresses) {
				return "multi unlock length"
			}
			sum := 0
			for j, x := range u.Unlocks {
				if _, empty := x.(*iotago.EmptyUnlock); empty {
					continue
				}
				if r := refUnlockAddr(st, owner.Addresses[j].Address, x, i, msg, true); r != "" {
					return "multi: " + r
				}
				sum += int(owner.Addresses[j].Weight)
			}
			if sum < int(owner.Threshold) {
				return "multi: threshold not reached"
			}
			st.at[k] = i

			return ""
		}

		return "wrong kind of unlock for a multi address"
	}

	return "unknown owner"
}
