package main

// P31: the failure reason which is reported for a transaction.

import (
	"fmt"
	"sort"
	"strings"

	"github.com/iotaledger/hive.go/ierrors"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/api"
)

func init() { register("P31", p31) }

// refReasons is the failure reason of each error.
var refReasons = map[byte]error{
	1: iotago.ErrTxConflictRejected, 2: iotago.ErrTxOrphaned, 3: iotago.ErrInputAlreadySpent, 4: iotago.ErrInputCreationAfterTxCreation, 5: iotago.ErrUnlockSignatureInvalid,
	6: iotago.ErrChainAddressUnlockInvalid, 7: iotago.ErrDirectUnlockableAddressUnlockInvalid, 8: iotago.ErrMultiAddressUnlockInvalid,
	9: iotago.ErrCommitmentInputReferenceInvalid, 10: iotago.ErrBICInputReferenceInvalid, 11: iotago.ErrRewardInputReferenceInvalid,
	12: iotago.ErrStakingRewardCalculationFailure, 13: iotago.ErrDelegationRewardCalculationFailure, 14: iotago.ErrInputOutputBaseTokenMismatch,
	15: iotago.ErrManaOverflow, 16: iotago.ErrInputOutputManaMismatch, 17: iotago.ErrManaDecayCreationIndexExceedsTargetIndex, 18: iotago.ErrNativeTokenSumUnbalanced,
	19: iotago.ErrSimpleTokenSchemeMintedMeltedTokenDecrease, 20: iotago.ErrSimpleTokenSchemeMintingInvalid, 21: iotago.ErrSimpleTokenSchemeMeltingInvalid, 22: iotago.ErrSimpleTokenSchemeMaximumSupplyChanged, 23: iotago.ErrSimpleTokenSchemeGenesisInvalid,
	24: iotago.ErrMultiAddressLengthUnlockLengthMismatch, 25: iotago.ErrMultiAddressUnlockThresholdNotReached, 26: iotago.ErrSenderFeatureNotUnlocked, 27: iotago.ErrIssuerFeatureNotUnlocked,
	28: iotago.ErrStakingRewardInputMissing, 29: iotago.ErrStakingCommitmentInputMissing, 30: iotago.ErrStakingRewardClaimingInvalid, 31: iotago.ErrStakingFeatureRemovedBeforeUnbonding, 32: iotago.ErrStakingFeatureModifiedBeforeUnbonding,
	33: iotago.ErrStakingStartEpochInvalid, 34: iotago.ErrStakingEndEpochTooEarly, 35: iotago.ErrBlockIssuerCommitmentInputMissing, 36: iotago.ErrBlockIssuanceCreditInputMissing, 37: iotago.ErrBlockIssuerNotExpired, 38: iotago.ErrBlockIssuerExpiryTooEarly,
	39: iotago.ErrManaMovedOffBlockIssuerAccount, 40: iotago.ErrAccountLocked, 41: iotago.ErrTimelockCommitmentInputMissing, 42: iotago.ErrTimelockNotExpired, 43: iotago.ErrExpirationCommitmentInputMissing, 44: iotago.ErrExpirationNotUnlockable,
	45: iotago.ErrReturnAmountNotFulFilled, 46: iotago.ErrNewChainOutputHasNonZeroedID, 47: iotago.ErrChainOutputImmutableFeaturesChanged, 48: iotago.ErrImplicitAccountDestructionDisallowed, 49: iotago.ErrMultipleImplicitAccountCreationAddresses,
	50: iotago.ErrAccountInvalidFoundryCounter, 51: iotago.ErrAnchorInvalidStateTransition, 52: iotago.ErrAnchorInvalidGovernanceTransition, 53: iotago.ErrFoundryTransitionWithoutAccount, 54: iotago.ErrFoundrySerialInvalid,
	55: iotago.ErrDelegationCommitmentInputMissing, 56: iotago.ErrDelegationRewardInputMissing, 57: iotago.ErrDelegationRewardsClaimingInvalid, 58: iotago.ErrDelegationOutputTransitionedTwice, 59: iotago.ErrDelegationModified,
	60: iotago.ErrDelegationStartEpochInvalid, 61: iotago.ErrDelegationAmountMismatch, 62: iotago.ErrDelegationEndEpochNotZero, 63: iotago.ErrDelegationEndEpochInvalid,
	64: iotago.ErrTxCapabilitiesNativeTokenBurningNotAllowed, 65: iotago.ErrTxCapabilitiesManaBurningNotAllowed, 66: iotago.ErrTxCapabilitiesAccountDestructionNotAllowed, 67: iotago.ErrTxCapabilitiesAnchorDestructionNotAllowed,
	68: iotago.ErrTxCapabilitiesFoundryDestructionNotAllowed, 69: iotago.ErrTxCapabilitiesNFTDestructionNotAllowed,
}

// ruleReasons lists, for the beginning of each rule of the reference, the failure reasons which name it.
var ruleReasons = []struct {
	rule    string
	reasons []byte
}{
	// unlocks (the prefix "multi: " is an unlock within a multi unlock)
	{"anchor state index", []byte{51, 52, 255}},
	{"expiration without commitment", []byte{43}},
	{"neither owner nor return address can unlock", []byte{44}},
	{"timelock without commitment", []byte{41}},
	{"timelocked until", []byte{42}},
	{"wrong kind of unlock for a chain address", []byte{6}},
	{"chain address is not unlocked at the reference", []byte{6}},
	{"address is already unlocked", []byte{7}},
	{"public key does not match", []byte{5}},
	{"bad signature", []byte{5}},
	{"no signature at the reference", []byte{7}},
	{"referenced signature belongs to another address", []byte{7}},
	{"wrong kind of unlock for a direct address", []byte{7}},
	{"multi address is not unlocked at the reference", []byte{8}},
	{"multi address is already unlocked", []byte{8}},
	{"multi unlock length", []byte{24}},
	{"threshold not reached", []byte{25}},
	{"wrong kind of unlock for a multi address", []byte{8}},
	// balances
	{"in # out #", []byte{14}},
	{"storage deposit of", []byte{45}},
	{"sum of", []byte{18, 255}},
	{"token # out # > in # without its foundry", []byte{18}},
	{"token # in # > out # without permission to burn", []byte{18, 64}},
	{"foundry genesis minted", []byte{23, 18}},
	{"foundry destroyed but", []byte{18}},
	{"foundry transition minted", []byte{18, 19, 20, 21, 22, 255}},
	{"input # is younger", []byte{4, 15, 16, 17, 39, 65}},
	{"overflow", []byte{15, 16, 17, 39, 65}},
	{"in # < out #", []byte{16}},
	{"in # > out # without permission to burn", []byte{65}},
	{"mana moved off", []byte{39}},
	// chains
	{"# implicit accounts", []byte{49}},
	{"block issuance credit input missing", []byte{36}},
	{"account locked", []byte{40}},
	{"staking start epoch", []byte{33}},
	{"staking end epoch", []byte{34}},
	{"new block issuer expiry", []byte{38, 35}},
	{"block issuer without commitment", []byte{35}},
	{"unexpired block issuer removed", []byte{37}},
	{"block issuer expiry", []byte{38}},
	{"added block issuer expiry", []byte{38}},
	{"implicit account destroyed", []byte{48}},
	{"implicit account without block issuer", []byte{37}},
	{"account destroyed without permission", []byte{66}},
	{"block issuer destroyed without commitment", []byte{35}},
	{"account with unexpired block issuer destroyed", []byte{37}},
	{"account with unexpired staking destroyed", []byte{29, 31}},
	{"immutable features changed", []byte{47}},
	{"staking without commitment", []byte{29}},
	{"unexpired staking removed", []byte{31}},
	{"unexpired staking modified", []byte{32}},
	{"foundry counter", []byte{50}},
	{"reward claimed: true", []byte{30}},
	{"reward claimed: false", []byte{28}},
	{"anchor destroyed without permission", []byte{67}},
	{"anchor amount changed by governor", []byte{52}},
	{"anchor state metadata changed by governor", []byte{52}},
	{"anchor state index #", []byte{51, 52}},
	{"anchor controller changed by state controller", []byte{51}},
	{"anchor metadata changed by state controller", []byte{51}},
	{"foundry destroyed without permission", []byte{68}},
	{"nft destroyed without permission", []byte{69}},
	{"delegation destroyed without reward", []byte{56}},
	{"delegation transition claims reward", []byte{57}},
	{"delegation transitioned twice", []byte{58}},
	{"delegation modified", []byte{59}},
	{"delegation without commitment", []byte{55}},
	{"delegation end epoch not zero", []byte{62}},
	{"delegation end epoch", []byte{63}},
	{"new account with ID", []byte{46}},
	{"new anchor with ID", []byte{46}},
	{"new nft with ID", []byte{46}},
	{"new delegation with ID", []byte{46}},
	{"delegation start epoch", []byte{60}},
	{"delegated amount", []byte{61}},
	{"new foundry without its account", []byte{53}},
	{"foundry serial", []byte{54}},
	// features
	{"issuer is not unlocked", []byte{27}},
	{"sender of output", []byte{26}},
}

func reasonsOf(rule string) (l []byte, known bool) {
	for {
		cut := false
		for _, p := range []string{"input # ", "multi: "} {
			// "input # is younger ..." is a rule of its own
			if strings.HasPrefix(rule, p) && !strings.HasPrefix(rule, "input # is younger") {
				rule, cut = rule[len(p):], true
			}
		}
		if !cut {
			break
		}
	}
	for _, x := range ruleReasons {
		if strings.HasPrefix(rule, x.rule) {
			return x.reasons, true
		}
	}

	return nil, false
}

// Errors which are no pointers: a list of errors (as some validation libraries return), a list of texts, a value
// with a list in it.
type (
	errList  []error
	errTexts []string
	errValue struct {
		err  error
		data any
	}
)

func (e errList) Error() string   { return fmt.Sprintf("%d errors", len(e)) }
func (e errList) Unwrap() []error { return e }
func (e errTexts) Error() string  { return strings.Join(e, ", ") }
func (e errValue) Error() string  { return fmt.Sprintf("%v: %v", e.data, e.err) }
func (e errValue) Unwrap() error  { return e.err }

// errTree is a random tree of errors. order lists the listed errors from the most to the least detailed one.
func errTree(t *Case, depth int) (err error, order []byte) {
	r := t.R
	leaf := func() (error, []byte) {
		if coin(r, 5) {
			if coin(r, 4) {
				return errTexts{"something", "else"}, nil
			}

			return ierrors.New("something else"), nil
		}
		n := byte(1 + r.Intn(69))

		return refReasons[n], []byte{n}
	}
	if depth == 0 {
		return leaf()
	}
	e, o := errTree(t, depth-1)
	switch k := r.Intn(10); k {
	case 0:
		return leaf()
	case 1:
		return ierrors.Wrap(e, "wrapped"), o
	case 2:
		return ierrors.Wrapf(e, "wrapped %d", r.Intn(9)), o
	case 3:
		return ierrors.WithMessagef(e, "message %d", r.Intn(9)), o
	case 4:
		return fmt.Errorf("std: %w", e), o
	case 7:
		return errValue{e, []any{1, []int{2}, nil}[r.Intn(3)]}, o
	case 5, 6, 8:
		// the right-most error is the most detailed one
		es, os := []error{e}, [][]byte{o}
		more := r.Intn(3)
		if coin(r, 10) {
			more = 3 + r.Intn(9)
		}
		for i := more; i >= 0; i-- {
			e, o := errTree(t, r.Intn(depth))
			es, os = append(es, e), append(os, o)
		}
		o = nil
		for i := len(os) - 1; i >= 0; i-- {
			o = append(o, os[i]...)
		}
		if k == 5 {
			return ierrors.Join(es...), o
		}
		if k == 8 {
			return errList(es), o
		}
		f, args := "", []any{}
		for _, e := range es {
			f, args = f+"%w: ", append(args, e)
		}

		return fmt.Errorf(f, args...), o
	default:
		return ierrors.WithMessage(e, "message"), o
	}
}

func p31(c *Ctx) {
	c.Rule("(a) scenes of the virtual machine as in P15 to P20, with one or more rules broken: the reported reason has to name one of the rules which the reference finds broken; (b) random trees of wrapped and joined errors over all 69 listed errors and others: the reported reason is that of the most detailed listed error (the right-most of joined errors), and the general reason only if no listed error occurs; (c) every listed error on its own and in every form of wrapping")
	c.Assume("which rules a transaction breaks is decided by the same reference as in P15 to P20")
	c.Run("scenes", c.N(60000, 1500000), func(t *Case) {
		sc, desc := vmScenes(t, []string{"", "base", "nt", "mana", "unlock", "chain", "feat", "chain"}[t.R.Intn(8)])
		if u := vmUndecided(sc); u != "" {
			t.Count("not used (" + strings.SplitN(u, ":", 2)[0] + ")")

			return
		}
		var rules []string
		refVM(sc, &rules)
		_, _, err := vmRun(sc)
		if err == nil || len(rules) == 0 {
			return
		}
		reason := byte(api.DetermineTransactionFailureReason(err))
		allowed := map[byte]bool{}
		for i, x := range rules {
			rules[i] = ruleOf(x)
			l, known := reasonsOf(rules[i])
			if !known {
				t.Violate("harness:no-reason", "no reason is known for the rule %q", rules[i])
			}
			for _, n := range l {
				allowed[n] = true
			}
		}
		sort.Strings(rules)
		t.Check(allowed[reason], fmt.Sprintf("reason:%d:%s", reason, strings.Join(rules, "|")), "a transaction which breaks [%s] is reported with the reason %d (%v)\nchange: %s\n%s", strings.Join(rules, "; "), reason, err, desc, sc.describe())
		t.Count(fmt.Sprintf("reason %d", reason))
		t.Eval(join(fmt.Sprint(reason), strings.Join(rules, "|")))
		t.Sample(map[string]any{"rules": rules, "reason": reason, "error": err.Error()})
	})
	c.Run("trees", c.N(60000, 2000000), func(t *Case) {
		err, order := errTree(t, t.R.Intn(6))
		want := byte(255)
		if len(order) > 0 {
			want = order[0]
		}
		got := byte(api.DetermineTransactionFailureReason(err))
		t.Check(got == want, "tree", "the reason of %q is %d instead of %d (listed errors from the most detailed one: %v)", err, got, want, order)
		t.Count(fmt.Sprintf("trees with %d listed errors", min(len(order), 6)))
		t.Eval(join("tree", fmt.Sprint(order)))
	})
	c.Run("each", 69, func(t *Case) {
		n := byte(t.Index + 1)
		for name, err := range map[string]error{
			"alone":   refReasons[n],
			"wrapped": ierrors.Wrap(refReasons[n], "w"),
			"message": ierrors.WithMessage(refReasons[n], "w"),
			"joined":  ierrors.Join(ierrors.New("other"), refReasons[n]),
			"first":   ierrors.Join(refReasons[n], ierrors.New("other")),
			"std":     fmt.Errorf("x %w y %w", ierrors.New("other"), refReasons[n]),
			"deep":    ierrors.Wrap(ierrors.Join(ierrors.Wrap(ierrors.WithMessage(refReasons[n], "a"), "b"), ierrors.New("c")), "d"),
		} {
			got := byte(api.DetermineTransactionFailureReason(err))
			t.Check(got == n, "each:"+name, "the reason of %q is %d instead of %d", err, got, n)
			t.Eval(join("each", name, fmt.Sprint(n)))
		}
	})
	t := byte(api.DetermineTransactionFailureReason(ierrors.New("x")))
	c.Add("reason of an unlisted error", int64(t))
}
