package main

// P15-P21: execution of transactions by the virtual machine.

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/iotaledger/hive.go/ierrors"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/vm"
	"github.com/iotaledger/iota.go/v4/vm/nova"
)

func init() {
	register("P15", func(c *Ctx) { vmCheck(c, "base") })
	register("P16", func(c *Ctx) { vmCheck(c, "nt") })
	register("P17", func(c *Ctx) { vmCheck(c, "mana"); manaTotals(c) })
	register("P18", func(c *Ctx) { vmCheck(c, "unlock"); unlockableBy(c) })
	register("P19", func(c *Ctx) { vmCheck(c, "chain") })
	register("P20", func(c *Ctx) { vmCheck(c, "feat") })
	register("P21", p21)
}

var vmErrCats = map[string][]error{
	"base": {iotago.ErrInputOutputBaseTokenMismatch, iotago.ErrReturnAmountNotFulFilled},
	"nt": {iotago.ErrNativeTokenSetInvalid, iotago.ErrNativeTokenSumUnbalanced, iotago.ErrTxCapabilitiesNativeTokenBurningNotAllowed, iotago.ErrSimpleTokenSchemeTransition, iotago.ErrSimpleTokenSchemeMintingInvalid,
		iotago.ErrSimpleTokenSchemeMeltingInvalid, iotago.ErrSimpleTokenSchemeMaximumSupplyChanged, iotago.ErrSimpleTokenSchemeMintedMeltedTokenDecrease, iotago.ErrSimpleTokenSchemeInvalidMintedMeltedTokens, iotago.ErrSimpleTokenSchemeGenesisInvalid},
	"mana":   {iotago.ErrInputOutputManaMismatch, iotago.ErrTxCapabilitiesManaBurningNotAllowed, iotago.ErrInputCreationAfterTxCreation, iotago.ErrManaMovedOffBlockIssuerAccount, iotago.ErrManaOverflow, iotago.ErrManaDecayCreationIndexExceedsTargetIndex},
	"unlock": {iotago.ErrTimelockNotExpired, iotago.ErrTimelockCommitmentInputMissing, iotago.ErrExpirationNotUnlockable, iotago.ErrExpirationCommitmentInputMissing},
	"chain": {iotago.ErrMultipleImplicitAccountCreationAddresses, iotago.ErrNewChainOutputHasNonZeroedID, iotago.ErrChainOutputImmutableFeaturesChanged, iotago.ErrBlockIssuerExpiryTooEarly, iotago.ErrBlockIssuerCommitmentInputMissing,
		iotago.ErrBlockIssuerNotExpired, iotago.ErrBlockIssuanceCreditInputMissing, iotago.ErrAccountLocked, iotago.ErrStakingStartEpochInvalid, iotago.ErrStakingEndEpochTooEarly, iotago.ErrStakingCommitmentInputMissing,
		iotago.ErrStakingRewardClaimingInvalid, iotago.ErrStakingRewardInputMissing, iotago.ErrStakingFeatureRemovedBeforeUnbonding, iotago.ErrStakingFeatureModifiedBeforeUnbonding, iotago.ErrAccountInvalidFoundryCounter,
		iotago.ErrTxCapabilitiesAccountDestructionNotAllowed, iotago.ErrTxCapabilitiesAnchorDestructionNotAllowed, iotago.ErrTxCapabilitiesFoundryDestructionNotAllowed, iotago.ErrTxCapabilitiesNFTDestructionNotAllowed,
		iotago.ErrImplicitAccountDestructionDisallowed, iotago.ErrAnchorInvalidStateTransition, iotago.ErrAnchorInvalidGovernanceTransition, iotago.ErrFoundryTransitionWithoutAccount, iotago.ErrFoundrySerialInvalid,
		iotago.ErrDelegationRewardsClaimingInvalid, iotago.ErrDelegationRewardInputMissing, iotago.ErrDelegationCommitmentInputMissing, iotago.ErrDelegationStartEpochInvalid, iotago.ErrDelegationAmountMismatch,
		iotago.ErrDelegationEndEpochNotZero, iotago.ErrDelegationOutputTransitionedTwice, iotago.ErrDelegationModified, iotago.ErrDelegationEndEpochInvalid},
	"feat": {iotago.ErrSenderFeatureNotUnlocked, iotago.ErrIssuerFeatureNotUnlocked},
}

// vmErrCat attributes an error of Execute to the rules it is about; "" if it cannot be attributed.
func vmErrCat(err error) string {
	// the issuer check is part of the chain transitions
	for _, cat := range []string{"feat", "nt", "mana", "base", "unlock", "chain"} {
		for _, e := range vmErrCats[cat] {
			if ierrors.Is(err, e) {
				return cat
			}
		}
	}

	return ""
}

// vmRun executes the scene with the real virtual machine.
func vmRun(sc *vmScene) (outs []iotago.Output, stage string, err error) {
	m := nova.NewVirtualMachine()
	unlocked, err := m.ValidateUnlocks(sc.stx, sc.resolved())
	if err != nil {
		return nil, "unlock", err
	}
	outs, err = m.Execute(sc.stx.Transaction, sc.resolved(), unlocked)
	if err != nil {
		return outs, "execute", err
	}

	return outs, "", nil
}

type vmMut struct {
	name string
	f    func(g *vmGen) string
}

var vmMuts = []vmMut{{"number", mutNumber}, {"address", mutAddress}, {"feature", mutFeature}, {"list", mutList}, {"time", mutTime}, {"context", mutContext}, {"caps", mutCaps}, {"move", mutMove}, {"implicit", mutImplicit}, {"rogue", mutRogue}, {"chain", mutChain}, {"edge", mutEdge}}

// vmFocus lists the moves and mutations which matter most for a category.
func vmFocus(cat string) (moves []func(g *vmGen), muts []vmMut, unlockMuts int) {
	state := func(g *vmGen) { g.mvAccountState() }
	pick := func(names ...string) (l []vmMut) {
		for _, n := range names {
			for _, m := range vmMuts {
				if m.name == n {
					l = append(l, m)
				}
			}
		}

		return l
	}
	switch cat {
	case "base":
		return []func(g *vmGen){(*vmGen).mvBasic, (*vmGen).mvBasic, (*vmGen).mvNFT}, pick("number", "address", "feature", "list", "time", "move", "move"), 0
	case "nt":
		return []func(g *vmGen){(*vmGen).mvToken, (*vmGen).mvFoundries, (*vmGen).mvFoundries}, pick("number", "feature", "list", "caps", "chain"), 0
	case "mana":
		return []func(g *vmGen){state, state, (*vmGen).mvImplicit}, pick("number", "move", "move", "time", "caps", "context", "address"), 0
	case "unlock":
		return []func(g *vmGen){(*vmGen).mvBasic, (*vmGen).mvNFT, (*vmGen).mvAnchor}, pick("time", "address", "number", "feature", "list", "rogue", "rogue", "edge", "edge"), 3
	case "chain":
		return []func(g *vmGen){state, (*vmGen).mvAnchor, (*vmGen).mvDelegation}, pick("number", "number", "feature", "list", "time", "context", "context", "context", "caps", "implicit", "address", "chain", "chain", "chain"), 0
	case "feat":
		return []func(g *vmGen){(*vmGen).mvAccountGenesis, (*vmGen).mvNFT, (*vmGen).mvAnchor}, pick("address", "address", "feature", "list", "time", "number"), 0
	}

	return nil, vmMuts, 1
}

func vmScenes(t *Case, cat string) (*vmScene, string) {
	moves, muts, unlockMuts := vmFocus(cat)
	g := genVM(t.R, moves...)
	desc := ""
	k := t.R.Intn(10)
	if k < 5+unlockMuts {
		n := 1
		if coin(t.R, 6) {
			n = 2
		}
		for i := 0; i < n; i++ {
			if d := muts[t.R.Intn(len(muts))].f(g); d != "" && unlockMuts == 0 || d != "" && coin(t.R, 2) {
				desc += d + "; "
			}
		}
	}
	sc := g.assemble()
	if unlockMuts > 0 && k >= 3 && k < 5+unlockMuts {
		if d := mutUnlocks(g, sc); d != "" {
			desc += "unlocks: " + d
		}
	}

	return sc, desc
}

func (sc *vmScene) describe() string {
	var b strings.Builder
	fmt.Fprintf(&b, "world %s; commitment %v; bic %v; rewards %v; kinds %v\n", sc.w.Name, sc.commitment != nil, sc.bic, sc.rewards, sc.kinds)
	if sc.commitment != nil {
		fmt.Fprintf(&b, "commitment slot %d past-bounded %d future-bounded %d\n", sc.commitment.Slot, sc.commitment.Slot+sc.w.PP.MaxCommittableAge(), sc.commitment.Slot+sc.w.PP.MinCommittableAge())
	}
	fmt.Fprintf(&b, "creation slot %d caps %x\n", sc.stx.Transaction.CreationSlot, sc.stx.Transaction.Capabilities)
	for i, o := range sc.ins {
		fmt.Fprintf(&b, "in %d slot %d: %s | unlock %s\n", i, refIDSlot(sc.ids[i]), dump(o), dump(sc.stx.Unlocks[i]))
	}
	for i, o := range sc.stx.Transaction.Outputs {
		fmt.Fprintf(&b, "out %d: %s\n", i, dump(o))
	}
	for _, a := range sc.stx.Transaction.Allotments {
		fmt.Fprintf(&b, "allot %x %d\n", a.AccountID[:4], a.Mana)
	}

	return b.String()
}

// dump prints an object with its fields.
func dump(x any) string {
	var b strings.Builder
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface, reflect.Pointer:
			if v.IsNil() {
				b.WriteString("nil")

				return
			}
			if v.Kind() == reflect.Pointer && v.Type().Elem() == bigType {
				fmt.Fprintf(&b, "%v", v.Interface())

				return
			}
			walk(v.Elem())
		case reflect.Struct:
			b.WriteString(v.Type().Name() + "{")
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					b.WriteString(v.Type().Field(i).Name + ":")
					walk(v.Field(i))
					b.WriteString(" ")
				}
			}
			b.WriteString("}")
		case reflect.Slice:
			if v.Type().Elem().Kind() == reflect.Uint8 {
				fmt.Fprintf(&b, "%x", v.Bytes())

				return
			}
			b.WriteString("[")
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
				b.WriteString(" ")
			}
			b.WriteString("]")
		case reflect.Array:
			s := ""
			for i := 0; i < v.Len() && i < 6; i++ {
				s += fmt.Sprintf("%02x", v.Index(i).Interface())
			}
			b.WriteString(v.Type().Name() + ":" + s)
		default:
			switch v.Kind() {
			case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
				fmt.Fprintf(&b, "%d", v.Uint())
			case reflect.Map:
				fmt.Fprintf(&b, "map(%d)", v.Len())
			default:
				fmt.Fprintf(&b, "%v", v)
			}
		}
	}
	walk(reflect.ValueOf(x))

	return b.String()
}

// vmJudge compares the verdict of the virtual machine with the reference. cat is the judged category or "" for all.
func vmJudge(t *Case, sc *vmScene, v verdict, stage string, err error, cat, desc string) {
	mine := func(c string) bool { return cat == "" || c == cat }
	if err == nil {
		for c, reason := range v {
			if mine(c) {
				t.Violate("accepts:"+c+":"+ruleOf(reason), "the virtual machine accepts a transaction which breaks a rule [%s]: %s\nchange: %s\n%s", c, reason, desc, sc.describe())
			}
		}

		return
	}
	real := "unlock"
	if stage == "execute" {
		real = vmErrCat(err)
	}
	switch {
	case len(v) == 0:
		if real == "" || mine(real) {
			t.Violate("rejects:"+orStr(real, "unknown"), "the virtual machine rejects a valid transaction: %v\nchange: %s\n%s", err, desc, sc.describe())
		}
	case real != "" && v[real] == "" && v["unlock"] == "" && mine(real):
		t.Violate("wrong-reason:"+real, "the virtual machine rejects because of %s (%v), but only %s is violated\nchange: %s\n%s", real, err, v, desc, sc.describe())
	case real == "unlock" && v["unlock"] == "" && mine(real):
		t.Violate("wrong-reason:unlock", "the virtual machine rejects because of the unlocks (%v), but only %s is violated\nchange: %s\n%s", err, v, desc, sc.describe())
	}
}

// ruleOf strips numbers from a reason.
func ruleOf(s string) string {
	var b strings.Builder
	for _, f := range strings.Fields(s) {
		if strings.ContainsAny(f, "0123456789") {
			f = "#"
		}
		b.WriteString(f + " ")
	}

	return strings.TrimSpace(b.String())
}

func vmCheck(c *Ctx, cat string) {
	c.Rule("scenes of up to 12 moves (transfers with time conditions and storage deposit return, native tokens, creation, transition and destruction of accounts, implicit accounts, anchors, foundries, NFTs and delegations; owners are keys, multi addresses, restricted addresses and chains) with real signatures; about half of them changed in one or two places (numbers by small steps, addresses, features, lists, slots, context inputs, permissions, moved mana, unlocks); the reference decides which rules are broken")
	c.Run("scenes", c.N(40000, 1000000), func(t *Case) {
		sc, desc := vmScenes(t, cat)
		if u := vmUndecided(sc); u != "" {
			t.Count("not used (" + strings.SplitN(u, ":", 2)[0] + ")")

			return
		}
		v := refVM(sc)
		_, stage, err := vmRun(sc)
		vmJudge(t, sc, v, stage, err, cat, desc)
		if cat == "unlock" && v["unlock"] == "" && stage != "unlock" {
			unlockedSet(t, sc, desc)
		}
		vmStats(t, sc, v, err, cat, desc)
	})
}

func vmStats(t *Case, sc *vmScene, v verdict, err error, cat, desc string) {
	var ks []string
	for k := range sc.kinds {
		t.Count("scene with " + k)
		ks = append(ks, k)
	}
	switch {
	case err == nil:
		t.Count("accepted")
	case cat != "" && len(v) == 1 && v[cat] != "":
		t.Count("rejected only because of: " + ruleOf(v[cat]))
	default:
		t.Count("rejected")
	}
	t.Eval(join(fmt.Sprint(len(sc.ins), len(sc.stx.Transaction.Outputs), sc.kinds), v.String(), desc, sc.w.Name))
	if err != nil {
		t.Sample(map[string]any{"change": desc, "rejected": err.Error(), "rules": v.String(), "kinds": ks})
	} else {
		t.Sample(map[string]any{"change": desc, "accepted": true, "inputs": len(sc.ins), "outputs": len(sc.stx.Transaction.Outputs), "kinds": ks})
	}
}

// p21: the virtual machine is a function of its arguments.
func p21(c *Ctx) {
	c.Rule("the same scenes with all kinds of changes, each executed several times on independently built arguments, plus scenes of random inputs and outputs; before and after every run all arguments are serialized")
	c.Run("scenes", c.N(15000, 500000), func(t *Case) {
		sc, desc := vmScenes(t, "")
		if u := vmUndecided(sc); u != "" {
			t.Count("not used (" + strings.SplitN(u, ":", 2)[0] + ")")

			return
		}
		v := refVM(sc)
		vmPure(t, sc, desc)
		_, stage, err := vmRun(sc)
		if (err == nil) != (len(v) == 0) {
			vmJudge(t, sc, v, stage, err, "", desc)
		}
		vmStats(t, sc, v, err, "", desc)
	})
	c.Run("random", c.N(8000, 300000), func(t *Case) {
		r := t.R
		w := pickWorld(r)
		stx := genValidSignedTx(r, w)
		sc := &vmScene{w: w, stx: stx, bic: map[iotago.AccountID]int64{}, rewards: map[int]uint64{}, kinds: map[string]bool{}}
		for _, x := range stx.Transaction.TransactionEssence.Inputs {
			u := x.(*iotago.UTXOInput)
			var id iotago.OutputID
			copy(id[:36], u.TransactionID[:])
			id[36], id[37] = byte(u.TransactionOutputIndex), byte(u.TransactionOutputIndex>>8)
			o := genOutput(r)
			tokens, mana := uint64(w.PP.TokenSupply())/200, uint64(1)<<40
			repairOutput(r, w, o, &tokens, &mana)
			sc.ids = append(sc.ids, id)
			sc.ins = append(sc.ins, o)
		}
		for _, ci := range stx.Transaction.TransactionEssence.ContextInputs {
			switch ci := ci.(type) {
			case *iotago.CommitmentInput:
				sc.commitment = genCommitment(r)
				sc.commitment.Slot = iotago.SlotIndex(ru32(r) >> 1)
			case *iotago.BlockIssuanceCreditInput:
				sc.bic[ci.AccountID] = r.Int63() - r.Int63()
			case *iotago.RewardInput:
				sc.rewards[int(ci.Index)] = ru64(r) >> 8
			}
		}
		_, stage, err := vmPure(t, sc, "random")
		if stage != "unlock" && err == nil {
			t.Violate("random-accepted", "a transaction with random signatures is accepted\n%s", sc.describe())
		}
		// execution does not depend on the unlocks having been checked: it must not panic either
		_, err = nova.NewVirtualMachine().Execute(sc.stx.Transaction, sc.resolved(), vm.UnlockedAddresses{})
		t.Eval(join("random", fmt.Sprint(len(sc.ins), len(stx.Transaction.Outputs)), fmt.Sprint(err == nil)))
		if err == nil {
			t.Count("random transaction executed")
		} else {
			t.Count("random transaction rejected by " + orStr(vmErrCat(err), "another rule"))
		}
	})
}

func (sc *vmScene) fingerprint() string {
	var b strings.Builder
	b.Write(refSignedTx(sc.stx))
	for i, o := range sc.ins {
		b.Write(sc.ids[i][:])
		b.Write(refOutput(o))
	}
	if sc.commitment != nil {
		b.Write(refCommitment(sc.commitment))
	}

	return b.String()
}

// vmPure runs the scene several times: same verdict, same outputs, untouched arguments.
func vmPure(t *Case, sc *vmScene, desc string) (outs []iotago.Output, stage string, err error) {
	before := sc.fingerprint()
	res := sc.resolved()
	m := nova.NewVirtualMachine()
	run := func(m vm.VirtualMachine, res vm.ResolvedInputs) (outs []iotago.Output, unlocked vm.UnlockedAddresses, stage string, err error) {
		unlocked, err = m.ValidateUnlocks(sc.stx, res)
		if err != nil {
			return nil, unlocked, "unlock", err
		}
		outs, err = m.Execute(sc.stx.Transaction, res, unlocked)
		if err != nil {
			return outs, unlocked, "execute", err
		}

		return outs, unlocked, "", nil
	}
	var unlocked vm.UnlockedAddresses
	outs, unlocked, stage, err = run(m, res)
	describe := func(u vm.UnlockedAddresses) string {
		return u.String()
	}
	first := describe(unlocked)
	for i := 0; i < 4; i++ {
		m2, res2 := m, res
		if i >= 2 {
			m2, res2 = nova.NewVirtualMachine(), sc.resolved()
		}
		outs2, unlocked2, stage2, err2 := run(m2, res2)
		t.Check(stage2 == stage && (err2 == nil) == (err == nil), "nondeterministic", "verdict changes between runs: %v then %v\nchange: %s\n%s", err, err2, desc, sc.describe())
		t.Check(len(outs2) == len(outs), "nondeterministic-outputs", "%d outputs, then %d", len(outs), len(outs2))
		if stage != "unlock" {
			_ = first
			t.Check(len(unlocked2) == len(unlocked), "nondeterministic-unlocked", "%d unlocked addresses, then %d", len(unlocked), len(unlocked2))
		}
	}
	t.Check(sc.fingerprint() == before, "arguments-changed", "the arguments changed while the transaction was executed\nchange: %s\n%s", desc, sc.describe())
	t.Check(len(res.InputSet) == len(sc.ids), "input-set-changed", "the input set changed its size")
	for i, id := range sc.ids {
		t.Check(res.InputSet[id] == sc.ins[i], "input-set-changed", "input %d was replaced in the input set", i)
	}
	if err == nil {
		t.Check(len(outs) == len(sc.stx.Transaction.Outputs), "outputs", "%d outputs returned, the transaction has %d", len(outs), len(sc.stx.Transaction.Outputs))
		for i := range outs {
			t.Check(string(refOutput(outs[i])) == string(refOutput(sc.stx.Transaction.Outputs[i])), "outputs", "output %d differs from the transaction's", i)
		}
	} else {
		t.Check(outs == nil, "outputs-on-error", "outputs are returned together with an error")
	}

	return outs, stage, err
}

// manaTotals compares the mana sums of both sides of a transaction with exact arithmetic, for sums on both sides of 2^64.
func manaTotals(c *Ctx) {
	limit := new(big.Int).Lsh(big.NewInt(1), 64)
	judge := func(t *Case, what string, want *big.Int, got iotago.Mana, err error) {
		switch {
		case want == nil:
			c.Count(what + "-undefined")
			t.Check(err != nil, what+":undefined", "%d although one input is younger than the transaction", got)
		case want.Cmp(limit) >= 0:
			c.Count(what + "-overflow")
			t.Check(err != nil, what+":overflow", "%d for a sum of %s", got, want)
		default:
			c.Count(what + "-sum")
			if t.Check(err == nil, what+":refused", "a sum of %s: %v", want, err) {
				t.Check(bi(uint64(got)).Cmp(want) == 0, what+":sum", "%d, want %s", got, want)
			}
		}
	}
	c.Run("totals", c.N(20000, 1000000), func(t *Case) {
		r := t.R
		w := pickWorld(r)
		genesis := w.PP.GenesisSlot()
		target := genesis + iotago.SlotIndex(ru32(r)>>uint(2+r.Intn(28)))
		// amounts which add up to just below or just beyond the limit, over some of the places
		left := new(big.Int).Add(new(big.Int).Sub(limit, big.NewInt(4)), big.NewInt(int64(r.Intn(8))))
		piece := func(last bool) uint64 {
			v := ru64(r)
			if last || left.Cmp(bi(v)) < 0 {
				v = ^uint64(0)
				if left.IsUint64() {
					v = left.Uint64()
				}
			}
			left.Sub(left, bi(v))

			return v
		}
		tokens, mana := uint64(w.PP.TokenSupply()), uint64(1)<<40
		output := func() iotago.TxEssenceOutput {
			o := genOutput(r)
			repairOutput(r, w, o, &tokens, &mana)

			return o
		}
		full := coin(r, 2)

		var outs iotago.Outputs[iotago.TxEssenceOutput]
		want := new(big.Int)
		n, m := r.Intn(4), r.Intn(4)
		for i := 0; i < n; i++ {
			o := output()
			if full {
				refSetMana(o, piece(m == 0 && i == n-1))
			}
			want.Add(want, bi(refStoredMana(o)))
			outs = append(outs, o)
		}
		var allots iotago.Allotments
		for i := 0; i < m; i++ {
			v := ru64(r) >> uint(r.Intn(64))
			if full {
				v = piece(i == m-1)
			}
			want.Add(want, bi(v))
			allots = append(allots, &iotago.Allotment{AccountID: iotago.AccountID(r32(r)), Mana: iotago.Mana(v)})
		}
		got, err := vm.TotalManaOut(outs, allots)
		judge(t, "out", want, got, err)

		left = new(big.Int).Add(new(big.Int).Sub(limit, big.NewInt(4)), big.NewInt(int64(r.Intn(8))))
		set := vm.InputSet{}
		want = new(big.Int)
		mr := manaOf(w.PP)
		n, m = r.Intn(4), r.Intn(4)
		for i := 0; i < n; i++ {
			o := output()
			slot := target - iotago.SlotIndex(r.Intn(int(min(target-genesis+1, 3))))
			if !full || coin(r, 4) {
				slot = genesis + iotago.SlotIndex(r.Int63n(int64(target-genesis)+1))
			}
			if coin(r, 40) {
				slot = genesis + iotago.SlotIndex(ru32(r)>>2)
			}
			if full {
				refSetMana(o, piece(m == 0 && i == n-1))
			}
			var id iotago.OutputID
			copy(id[:], rbytes(r, len(id)))
			binary.LittleEndian.PutUint32(id[32:], uint32(slot))
			set[id] = o
			t.Note("%T amount %d mana %d slot %d target %d", o, o.BaseTokenAmount(), refStoredMana(o), slot, target)
			st, pot := mr.decaySlots(bi(refStoredMana(o)), uint64(slot), uint64(target)), refPotentialMana(w.PP, o, slot, target)
			switch {
			case st == nil || pot == nil:
				want = nil
			case want != nil:
				want.Add(want, st).Add(want, pot)
			}
			if want == nil {
				break
			}
		}
		rewards := vm.RewardsInputSet{}
		for i := 0; i < m && want != nil; i++ {
			v := ru64(r) >> uint(r.Intn(64))
			if full {
				v = piece(i == m-1)
			}
			want.Add(want, bi(v))
			rewards[iotago.AccountID(blake(rbytes(r, 8)))] = iotago.Mana(v)
		}
		gotIn, err := vm.TotalManaIn(w.API.ManaDecayProvider(), w.API.StorageScoreStructure(), target, set, rewards)
		judge(t, "in", want, gotIn, err)
		c.Eval(fmt.Sprint("totals/", w.Name, n, m, full))
	})
}
