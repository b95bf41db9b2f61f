package main

// Reference syntactic validation of transactions, written against the objects' fields and the reference encoding.
// Every function returns "" if the object is valid or a short reason if it is not.

import (
	"bytes"
	"fmt"
	"math/big"

	iotago "github.com/iotaledger/iota.go/v4"
)

func isImplicit(a iotago.Address) bool {
	_, is := a.(*iotago.ImplicitAccountCreationAddress)

	return is
}

func isDirect(a iotago.Address) bool {
	switch a.(type) {
	case *iotago.Ed25519Address, *iotago.AccountAddress, *iotago.NFTAddress, *iotago.AnchorAddress:
		return true
	}

	return false
}

// refAddrOK checks the structure of an address.
func refAddrOK(a iotago.Address) string {
	switch a := a.(type) {
	case *iotago.MultiAddress:
		if len(a.Addresses) < 2 || len(a.Addresses) > 10 {
			return "multi-count"
		}
		cum := 0
		for i, x := range a.Addresses {
			if !isDirect(x.Address) {
				return "multi-inner-type"
			}
			if x.Weight == 0 {
				return "multi-zero-weight"
			}
			cum += int(x.Weight)
			if i > 0 && bytes.Compare(refAddr(a.Addresses[i-1].Address), refAddr(x.Address)) >= 0 {
				return "multi-order"
			}
		}
		if a.Threshold == 0 {
			return "multi-zero-threshold"
		}
		if int(a.Threshold) > cum {
			return "multi-threshold-unreachable"
		}
	case *iotago.RestrictedAddress:
		switch a.Address.(type) {
		case *iotago.RestrictedAddress, *iotago.ImplicitAccountCreationAddress:
			return "restricted-inner-type"
		}
		if s := refAddrOK(a.Address); s != "" {
			return s
		}

		return refCapsOK(a.AllowedCapabilities, 2)
	}

	return ""
}

func refCapsOK(caps []byte, max int) string {
	if len(caps) > max {
		return "caps-too-long"
	}
	if len(caps) > 0 && caps[len(caps)-1] == 0 {
		return "caps-trailing-zero"
	}

	return ""
}

func refCap(caps []byte, bit int) bool {
	return bit/8 < len(caps) && caps[bit/8]&(1<<(bit%8)) != 0
}

// refMapSize is the serialized size of a metadata map: entry count plus length prefixed keys and values.
func refMapSize[K ~string, V ~[]byte](m map[K]V) int {
	n := 1
	for k, v := range m {
		n += 1 + len(k) + 2 + len(v)
	}

	return n
}

func refMapOK[K ~string, V ~[]byte](m map[K]V) string {
	if len(m) < 1 || len(m) > 255 {
		return "metadata-count"
	}
	for k := range m {
		if len(k) > 255 {
			return "metadata-key-length"
		}
		for i := 0; i < len(k); i++ {
			if k[i] < 33 || k[i] > 126 {
				return "metadata-key-not-printable-ascii"
			}
		}
	}

	return ""
}

func refFeatType(f iotago.Feature) int       { return int(refFeature(f)[0]) }
func refUCType(u iotago.UnlockCondition) int { return int(refUC(u)[0]) }
func in(x int, set ...int) bool {
	for _, s := range set {
		if s == x {
			return true
		}
	}

	return false
}

// allowed types per output type (index = output type).
var (
	refUCAllowed   = [][]int{{0, 1, 2, 3}, {0}, {4, 5}, {6}, {0, 1, 2, 3}, {0}}
	refUCMust      = [][]int{{0}, {0}, {4, 5}, {6}, {0}, {0}}
	refFeatAllowed = [][]int{{0, 2, 4, 5}, {0, 2, 6, 7}, {2, 3}, {2, 5}, {0, 2, 4}, {}}
	refImmAllowed  = [][]int{{}, {1, 2}, {1, 2}, {2}, {1, 2}, {}}
)

// refOutputStruct checks the rules which are enforced when an output is deserialized with validation.
func refOutputStruct(o iotago.Output) string {
	typ := int(refOutput(o)[0])
	ucs := refUCList(o)
	feats, imm := refFeatList(o)
	if len(ucs) > len(refUCAllowed[typ]) || len(feats) > len(refFeatAllowed[typ]) || len(imm) > len(refImmAllowed[typ]) {
		return "too-many-ucs-or-features"
	}
	seen := map[int]bool{}
	prev := -1
	for _, u := range ucs {
		t := refUCType(u)
		if !in(t, refUCAllowed[typ]...) {
			return "uc-type"
		}
		if t <= prev {
			return "uc-order"
		}
		prev = t
		seen[t] = true
		var a iotago.Address
		switch u := u.(type) {
		case *iotago.AddressUnlockCondition:
			a = u.Address
		case *iotago.StorageDepositReturnUnlockCondition:
			a = u.ReturnAddress
		case *iotago.ExpirationUnlockCondition:
			a = u.ReturnAddress
		case *iotago.StateControllerAddressUnlockCondition:
			a = u.Address
		case *iotago.GovernorAddressUnlockCondition:
			a = u.Address
		}
		if a != nil {
			if s := refAddrOK(a); s != "" {
				return s
			}
			if t != 0 && isImplicit(a) {
				return "implicit-address-in-uc"
			}
		}
	}
	for _, m := range refUCMust[typ] {
		if !seen[m] {
			return "uc-missing"
		}
	}
	for k, list := range [][]iotago.Feature{feats, imm} {
		allowed := refFeatAllowed[typ]
		if k == 1 {
			allowed = refImmAllowed[typ]
		}
		prev := -1
		for _, f := range list {
			t := refFeatType(f)
			if !in(t, allowed...) {
				return "feature-type"
			}
			if t <= prev {
				return "feature-order"
			}
			prev = t
			s := ""
			switch f := f.(type) {
			case *iotago.SenderFeature:
				s = refAddrOK(f.Address)
			case *iotago.IssuerFeature:
				s = refAddrOK(f.Address)
			case *iotago.MetadataFeature:
				s = refMapOK(f.Entries)
			case *iotago.StateMetadataFeature:
				s = refMapOK(f.Entries)
			case *iotago.TagFeature:
				if len(f.Tag) < 1 || len(f.Tag) > 64 {
					s = "tag-length"
				}
			case *iotago.NativeTokenFeature:
				if f.Amount.Sign() < 0 || f.Amount.BitLen() > 256 {
					s = "nt-range"
				}
			case *iotago.BlockIssuerFeature:
				if len(f.BlockIssuerKeys) < 1 || len(f.BlockIssuerKeys) > 128 {
					s = "block-issuer-keys-count"
				}
				for i := 1; i < len(f.BlockIssuerKeys); i++ {
					if bytes.Compare(refBIKey(f.BlockIssuerKeys[i-1]), refBIKey(f.BlockIssuerKeys[i])) >= 0 {
						s = "block-issuer-keys-order"
					}
				}
			}
			if s != "" {
				return s
			}
		}
	}

	return ""
}

// refTxStruct checks the rules which are enforced when a transaction is deserialized with validation.
func refTxStruct(tx *iotago.Transaction) string {
	e := tx.TransactionEssence
	if len(e.ContextInputs) > 128 {
		return "context-inputs-count"
	}
	if len(e.Inputs) < 1 || len(e.Inputs) > 128 {
		return "inputs-count"
	}
	if len(e.Allotments) > 128 {
		return "allotments-count"
	}
	if len(tx.Outputs) < 1 || len(tx.Outputs) > 128 {
		return "outputs-count"
	}
	if s := refCapsOK(e.Capabilities, 1); s != "" {
		return s
	}
	if td, is := e.Payload.(*iotago.TaggedData); is && td != nil {
		if len(td.Tag) > 64 || len(td.Data) > 8192 {
			return "payload-length"
		}
	}
	for _, o := range tx.Outputs {
		if s := refOutputStruct(o); s != "" {
			return s
		}
	}

	return ""
}

// refAddrRestrictions checks the capabilities of an address against an output it is placed in.
func refAddrRestrictions(o iotago.Output, a iotago.Address) string {
	allowed := func(bit int) bool { return true }
	switch a := a.(type) {
	case *iotago.RestrictedAddress:
		allowed = func(bit int) bool { return refCap(a.AllowedCapabilities, bit) }
	case *iotago.ImplicitAccountCreationAddress:
		allowed = func(bit int) bool { return bit < 2 } // native tokens and mana only
	default:
		return ""
	}
	feats, _ := refFeatList(o)
	for _, f := range feats {
		if _, is := f.(*iotago.NativeTokenFeature); is && !allowed(0) {
			return "restricted-native-token"
		}
	}
	if refStoredMana(o) != 0 && !allowed(1) {
		return "restricted-mana"
	}
	for _, u := range refUCList(o) {
		switch u.(type) {
		case *iotago.TimelockUnlockCondition:
			if !allowed(2) {
				return "restricted-timelock"
			}
		case *iotago.ExpirationUnlockCondition:
			if !allowed(3) {
				return "restricted-expiration"
			}
		case *iotago.StorageDepositReturnUnlockCondition:
			if !allowed(4) {
				return "restricted-sdr"
			}
		}
	}
	for typ, bit := range map[int]int{1: 5, 2: 6, 4: 7, 5: 8} {
		if int(refOutput(o)[0]) == typ && !allowed(bit) {
			return "restricted-output-type"
		}
	}

	return ""
}

func refAmount(o iotago.Output) uint64 {
	switch o := o.(type) {
	case *iotago.BasicOutput:
		return uint64(o.Amount)
	case *iotago.AccountOutput:
		return uint64(o.Amount)
	case *iotago.AnchorOutput:
		return uint64(o.Amount)
	case *iotago.FoundryOutput:
		return uint64(o.Amount)
	case *iotago.NFTOutput:
		return uint64(o.Amount)
	case *iotago.DelegationOutput:
		return uint64(o.Amount)
	}
	panic("output type")
}

func refSetAmount(o iotago.Output, v uint64) {
	switch o := o.(type) {
	case *iotago.BasicOutput:
		o.Amount = iotago.BaseToken(v)
	case *iotago.AccountOutput:
		o.Amount = iotago.BaseToken(v)
	case *iotago.AnchorOutput:
		o.Amount = iotago.BaseToken(v)
	case *iotago.FoundryOutput:
		o.Amount = iotago.BaseToken(v)
	case *iotago.NFTOutput:
		o.Amount = iotago.BaseToken(v)
	case *iotago.DelegationOutput:
		o.Amount = iotago.BaseToken(v)
	}
}

func refStoredMana(o iotago.Output) uint64 {
	switch o := o.(type) {
	case *iotago.BasicOutput:
		return uint64(o.Mana)
	case *iotago.AccountOutput:
		return uint64(o.Mana)
	case *iotago.AnchorOutput:
		return uint64(o.Mana)
	case *iotago.NFTOutput:
		return uint64(o.Mana)
	}

	return 0
}

func refSetMana(o iotago.Output, v uint64) {
	switch o := o.(type) {
	case *iotago.BasicOutput:
		o.Mana = iotago.Mana(v)
	case *iotago.AccountOutput:
		o.Mana = iotago.Mana(v)
	case *iotago.AnchorOutput:
		o.Mana = iotago.Mana(v)
	case *iotago.NFTOutput:
		o.Mana = iotago.Mana(v)
	}
}

func refFoundryID(f *iotago.FoundryOutput) (id iotago.FoundryID) {
	acc := f.UnlockConditions[0]
	addr := refUC(acc)[1:]
	copy(id[:33], addr)
	id[33], id[34], id[35], id[36] = byte(f.SerialNumber), byte(f.SerialNumber>>8), byte(f.SerialNumber>>16), byte(f.SerialNumber>>24)
	id[37] = 0

	return id
}

func zero32(b [32]byte) bool { return b == [32]byte{} }

// refOutputsSyntactic checks the syntactic rules of the outputs of a transaction.
func refOutputsSyntactic(w *World, outs iotago.TxEssenceOutputs, hasCommitment bool) string {
	sp := w.PP.StorageScoreParameters()
	tokens, mana := new(big.Int), new(big.Int)
	maxMana := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w.PP.ManaParameters().BitsCount)), big.NewInt(1))
	chains := map[string]bool{}
	for _, o := range outs {
		ucs := refUCList(o)
		feats, imm := refFeatList(o)
		for i := 1; i < len(ucs); i++ {
			if refUCType(ucs[i-1]) >= refUCType(ucs[i]) {
				return "uc-order"
			}
		}
		for _, l := range [][]iotago.Feature{feats, imm} {
			for i := 1; i < len(l); i++ {
				if refFeatType(l[i-1]) >= refFeatType(l[i]) {
					return "feature-order"
				}
			}
		}
		amount := refAmount(o)
		if amount == 0 {
			return "amount-zero"
		}
		if tokens.Add(tokens, bi(amount)).Cmp(bi(uint64(w.PP.TokenSupply()))) > 0 {
			return "supply-exceeded"
		}
		if bi(amount).Cmp(refMinDeposit(sp, o)) < 0 {
			return "min-deposit"
		}
		if mana.Add(mana, bi(refStoredMana(o))).Cmp(maxMana) > 0 {
			return "mana-exceeded"
		}
		for _, u := range ucs {
			switch u := u.(type) {
			case *iotago.StorageDepositReturnUnlockCondition:
				if bi(uint64(u.Amount)).Cmp(refReturnDeposit(sp, u.ReturnAddress)) < 0 {
					return "sdr-below-min"
				}
				if uint64(u.Amount) > amount {
					return "sdr-exceeds-amount"
				}
			case *iotago.TimelockUnlockCondition:
				if u.Slot == 0 {
					return "timelock-zero"
				}
			case *iotago.ExpirationUnlockCondition:
				if u.Slot == 0 {
					return "expiration-zero"
				}
				if s := refAddrRestrictions(o, u.ReturnAddress); s != "" {
					return s + "-return-address"
				}
			case *iotago.AddressUnlockCondition:
				if s := refAddrRestrictions(o, u.Address); s != "" {
					return s
				}
				if _, basic := o.(*iotago.BasicOutput); !basic && isImplicit(u.Address) {
					return "implicit-in-non-basic"
				}
			case *iotago.StateControllerAddressUnlockCondition:
				if s := refAddrRestrictions(o, u.Address); s != "" {
					return s + "-state-controller"
				}
			case *iotago.GovernorAddressUnlockCondition:
				if s := refAddrRestrictions(o, u.Address); s != "" {
					return s + "-governor"
				}
			}
		}
		var staking *iotago.StakingFeature
		var issuer *iotago.BlockIssuerFeature
		for _, f := range feats {
			switch f := f.(type) {
			case *iotago.MetadataFeature:
				if refMapSize(f.Entries) > 8192 {
					return "metadata-size"
				}
			case *iotago.StateMetadataFeature:
				if refMapSize(f.Entries) > 8192 {
					return "state-metadata-size"
				}
			case *iotago.NativeTokenFeature:
				if f.Amount.Sign() == 0 {
					return "native-token-zero"
				}
				if fo, is := o.(*iotago.FoundryOutput); is && refFoundryID(fo) != f.ID {
					return "foundry-native-token-mismatch"
				}
			case *iotago.StakingFeature:
				staking = f
			case *iotago.BlockIssuerFeature:
				issuer = f
			}
		}
		if (staking != nil || issuer != nil) && !hasCommitment {
			return "commitment-input-missing"
		}
		chain := ""
		switch o := o.(type) {
		case *iotago.AccountOutput:
			if zero32(o.AccountID) && o.FoundryCounter != 0 {
				return "account-foundry-counter"
			}
			if a, is := o.UnlockConditions[0].(*iotago.AddressUnlockCondition).Address.(*iotago.AccountAddress); is && [32]byte(*a) == [32]byte(o.AccountID) {
				return "account-cyclic"
			}
			if staking != nil {
				if o.Amount < staking.StakedAmount {
					return "staked-amount"
				}
				if issuer == nil {
					return "staking-without-block-issuer"
				}
			}
			if !zero32(o.AccountID) {
				chain = fmt.Sprintf("account%x", o.AccountID[:])
			}
		case *iotago.AnchorOutput:
			if zero32(o.AnchorID) {
				if o.StateIndex != 0 {
					return "anchor-state-index"
				}
			} else {
				for _, u := range ucs {
					var a iotago.Address
					switch u := u.(type) {
					case *iotago.StateControllerAddressUnlockCondition:
						a = u.Address
					case *iotago.GovernorAddressUnlockCondition:
						a = u.Address
					}
					if x, is := a.(*iotago.AnchorAddress); is && [32]byte(*x) == [32]byte(o.AnchorID) {
						return "anchor-cyclic"
					}
				}
				chain = fmt.Sprintf("anchor%x", o.AnchorID[:])
			}
			for _, u := range ucs {
				switch u := u.(type) {
				case *iotago.StateControllerAddressUnlockCondition:
					if isImplicit(u.Address) {
						return "implicit-in-non-basic"
					}
				case *iotago.GovernorAddressUnlockCondition:
					if isImplicit(u.Address) {
						return "implicit-in-non-basic"
					}
				}
			}
		case *iotago.NFTOutput:
			if !zero32(o.NFTID) {
				for _, u := range ucs {
					if x, is := u.(*iotago.AddressUnlockCondition); is {
						if a, is := x.Address.(*iotago.NFTAddress); is && [32]byte(*a) == [32]byte(o.NFTID) {
							return "nft-cyclic"
						}
					}
				}
				chain = fmt.Sprintf("nft%x", o.NFTID[:])
			}
		case *iotago.DelegationOutput:
			if zero32(*o.ValidatorAddress) {
				return "delegation-validator-empty"
			}
			if !hasCommitment {
				return "commitment-input-missing"
			}
			if !zero32(o.DelegationID) {
				chain = fmt.Sprintf("delegation%x", o.DelegationID[:])
			}
		case *iotago.FoundryOutput:
			ts := o.TokenScheme.(*iotago.SimpleTokenScheme)
			if ts.MaximumSupply.Sign() <= 0 {
				return "foundry-max-supply"
			}
			circ := new(big.Int).Sub(ts.MintedTokens, ts.MeltedTokens)
			if circ.Sign() < 0 {
				return "foundry-melted-more-than-minted"
			}
			if circ.Cmp(ts.MaximumSupply) > 0 {
				return "foundry-more-than-max"
			}
			id := refFoundryID(o)
			chain = fmt.Sprintf("foundry%x", id[:])
		}
		if chain != "" {
			if chains[chain] {
				return "chain-not-unique"
			}
			chains[chain] = true
		}
	}

	return ""
}

// refTxSyntactic checks the rules of Transaction.SyntacticallyValidate.
func refTxSyntactic(w *World, tx *iotago.Transaction) string {
	e := tx.TransactionEssence
	if len(e.Capabilities) > 0 && e.Capabilities[len(e.Capabilities)-1] == 0 {
		return "caps-trailing-zero"
	}
	if e.NetworkID != uint64(refNetworkID(w)) {
		return "network-id"
	}
	seen := map[string]bool{}
	for _, x := range e.Inputs {
		u := x.(*iotago.UTXOInput)
		k := fmt.Sprintf("%x/%d", u.TransactionID[:], u.TransactionOutputIndex)
		if seen[k] {
			return "inputs-not-unique"
		}
		seen[k] = true
		if u.TransactionOutputIndex > 127 {
			return "input-index"
		}
	}
	hasCommitment := false
	var prev []byte
	for _, c := range e.ContextInputs {
		b := refContextInput(c)
		switch c := c.(type) {
		case *iotago.CommitmentInput:
			// only a single commitment is allowed
			if hasCommitment {
				return "context-input-order"
			}
			hasCommitment = true
			b = b[:1]
		case *iotago.BlockIssuanceCreditInput:
			if !hasCommitment {
				return "bic-without-commitment"
			}
		case *iotago.RewardInput:
			if !hasCommitment {
				return "reward-without-commitment"
			}
			if int(c.Index) >= len(e.Inputs) {
				return "reward-index"
			}
			// ordered by the value of the index
			b = []byte{2, byte(c.Index >> 8), byte(c.Index)}
		}
		if prev != nil && bytes.Compare(prev, b) >= 0 {
			return "context-input-order"
		}
		prev = b
	}
	sum := new(big.Int)
	for i, a := range e.Allotments {
		if i > 0 && bytes.Compare(e.Allotments[i-1].AccountID[:], a.AccountID[:]) >= 0 {
			return "allotment-order"
		}
		sum.Add(sum, bi(uint64(a.Mana)))
	}
	if sum.BitLen() > int(w.PP.ManaParameters().BitsCount) {
		return "allotment-mana"
	}

	return refOutputsSyntactic(w, tx.Outputs, hasCommitment)
}

func refNetworkID(w *World) uint64 {
	h := blake([]byte(w.PP.NetworkName()))
	id := uint64(0)
	for i := 7; i >= 0; i-- {
		id = id<<8 | uint64(h[i])
	}

	return id
}

// refUnlocksValid checks the syntactic rules of unlocks.
func refUnlocksValid(us iotago.Unlocks) string {
	sigs := map[int]bool{}      // indices of top level signature unlocks
	multis := map[int]bool{}    // indices of multi unlocks
	refs := map[int]bool{}      // indices of top level referential unlocks
	top := map[string]bool{}    // public keys of top level signatures
	nested := map[string]bool{} // public keys of signatures in multi unlocks
	multiBytes := map[string]bool{}
	pub := func(s iotago.Signature) string { return string(refSig(s)[1:33]) }
	target := func(u iotago.Unlock) (idx int, chainable, is bool) {
		switch u := u.(type) {
		case *iotago.ReferenceUnlock:
			return int(u.Reference), false, true
		case *iotago.AccountUnlock:
			return int(u.Reference), true, true
		case *iotago.AnchorUnlock:
			return int(u.Reference), true, true
		case *iotago.NFTUnlock:
			return int(u.Reference), true, true
		}

		return 0, false, false
	}
	for i, u := range us {
		switch u := u.(type) {
		case *iotago.SignatureUnlock:
			k := pub(u.Signature)
			if top[k] || nested[k] {
				return "signature-not-unique"
			}
			top[k], sigs[i] = true, true
		case *iotago.MultiUnlock:
			if len(u.Unlocks) < 2 || len(u.Unlocks) > 10 {
				return "multi-count"
			}
			b := string(refUnlock(u))
			if multiBytes[b] {
				return "multi-not-unique"
			}
			multiBytes[b] = true
			for _, s := range u.Unlocks {
				switch s := s.(type) {
				case *iotago.SignatureUnlock:
					k := pub(s.Signature)
					if top[k] {
						return "signature-not-unique-in-multi"
					}
					nested[k] = true
				case *iotago.MultiUnlock:
					return "multi-nested"
				case *iotago.EmptyUnlock:
				default:
					idx, chainable, _ := target(s)
					switch {
					case refs[idx] && !chainable:
						return "multi-reference-not-chainable"
					case !refs[idx] && !sigs[idx]:
						return "multi-reference-dangling"
					}
				}
			}
			multis[i] = true
		case *iotago.EmptyUnlock:
			return "empty-outside-multi"
		default:
			idx, chainable, _ := target(u)
			switch {
			case refs[idx] && !chainable:
				return "reference-not-chainable"
			case !refs[idx] && !sigs[idx] && !multis[idx]:
				return "reference-dangling"
			}
			refs[i] = true
		}
	}

	return ""
}

// refSignedTxDecodes tells why a signed transaction must be rejected when it is deserialized with validation.
func refSignedTxDecodes(w *World, t *iotago.SignedTransaction) string {
	if s := refTxStruct(t.Transaction); s != "" {
		return s
	}
	if len(t.Unlocks) != len(t.Transaction.TransactionEssence.Inputs) {
		return "unlock-count"
	}
	if s := refTxSyntactic(w, t.Transaction); s != "" {
		return s
	}

	return refUnlocksValid(t.Unlocks)
}
