From e61a6d0d90d356393160834f9f4a5a36a4f11238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:12 +0000
Subject: [PATCH 01/47] fix: reject truncated Ed25519 signatures instead of
 panicking

---
 signature_ed25519.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signature_ed25519.go b/signature_ed25519.go
index 6c2e492..52c3bb3 100644
--- a/signature_ed25519.go
+++ b/signature_ed25519.go
@@ -38,6 +38,10 @@ func (e *Ed25519Signature) Clone() Signature {
 }
 
 func (e *Ed25519Signature) Decode(b []byte) (int, error) {
+	if len(b) < Ed25519SignatureSerializedBytesSize-1 {
+		return 0, ierrors.Errorf("not enough bytes to decode the Ed25519 signature: needed %d, have %d", Ed25519SignatureSerializedBytesSize-1, len(b))
+	}
+
 	copy(e.PublicKey[:], b[:ed25519.PublicKeySize])
 	copy(e.Signature[:], b[ed25519.PublicKeySize:])
 
-- 
2.43.0


From 07344c6dd07fdbe90e16a3c9e165f7546e9394e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:27 +0000
Subject: [PATCH 02/47] fix: exempt commitment inputs to the genesis slot from
 the min committable age check

The check compared against slot 0, which is only the genesis slot if the
genesis slot is 0, so transactions in the first slots of a network with
another genesis slot were rejected.
---
 block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/block.go b/block.go
index b98835c..e74f456 100644
--- a/block.go
+++ b/block.go
@@ -426,7 +426,7 @@ func (b *BasicBlockBody) syntacticallyValidate(block *Block) error {
 		if cInput := signedTransaction.Transaction.CommitmentInput(); cInput != nil {
 			cInputSlot := cInput.CommitmentID.Slot()
 			// check that commitment input is not too recent.
-			if cInputSlot > 0 && // Don't filter commitments to genesis based on being too recent.
+			if cInputSlot > block.API.ProtocolParameters().GenesisSlot() && // Don't filter commitments to genesis based on being too recent.
 				blockSlot < cInputSlot+minCommittableAge { // filter commitments to future slots.
 				return ierrors.WithMessagef(ErrCommitmentInputTooRecent, "block at slot %d with commitment input to slot %d, min committable age %d", blockSlot, cInput.CommitmentID.Slot(), minCommittableAge)
 			}
-- 
2.43.0


From 6dd1a63f6a94094cd80296cfce269872cdcacaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:27 +0000
Subject: [PATCH 03/47] fix: do not overflow slot indexes in the committable
 age checks of blocks

The slot of the commitment is chosen by the issuer. With a slot close to the
maximum the additions wrapped around and a commitment to the far future passed
the minimum committable age check.
---
 block.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/block.go b/block.go
index e74f456..6cde554 100644
--- a/block.go
+++ b/block.go
@@ -313,12 +313,12 @@ func (b *Block) syntacticallyValidate() error {
 
 	// check that commitment is not too recent.
 	if commitmentSlot > genesisSlot && // Don't filter commitments to genesis based on being too recent.
-		blockSlot < commitmentSlot+minCommittableAge {
+		(blockSlot < commitmentSlot || blockSlot-commitmentSlot < minCommittableAge) {
 		return ierrors.WithMessagef(ErrCommitmentTooRecent, "block at slot %d committing to slot %d, min committable age %d", blockSlot, b.Header.SlotCommitmentID.Slot(), minCommittableAge)
 	}
 
 	// Check that commitment is not too old.
-	if blockSlot > commitmentSlot+maxCommittableAge {
+	if blockSlot > commitmentSlot && blockSlot-commitmentSlot > maxCommittableAge {
 		return ierrors.WithMessagef(ErrCommitmentTooOld, "block at slot %d committing to slot %d, max committable age %d", blockSlot, b.Header.SlotCommitmentID.Slot(), maxCommittableAge)
 	}
 
@@ -427,11 +427,11 @@ func (b *BasicBlockBody) syntacticallyValidate(block *Block) error {
 			cInputSlot := cInput.CommitmentID.Slot()
 			// check that commitment input is not too recent.
 			if cInputSlot > block.API.ProtocolParameters().GenesisSlot() && // Don't filter commitments to genesis based on being too recent.
-				blockSlot < cInputSlot+minCommittableAge { // filter commitments to future slots.
+				(blockSlot < cInputSlot || blockSlot-cInputSlot < minCommittableAge) { // filter commitments to future slots.
 				return ierrors.WithMessagef(ErrCommitmentInputTooRecent, "block at slot %d with commitment input to slot %d, min committable age %d", blockSlot, cInput.CommitmentID.Slot(), minCommittableAge)
 			}
 			// Check that commitment input is not too old.
-			if blockSlot > cInputSlot+maxCommittableAge {
+			if blockSlot > cInputSlot && blockSlot-cInputSlot > maxCommittableAge {
 				return ierrors.WithMessagef(ErrCommitmentInputTooOld, "block at slot %d with commitment input to slot %d, max committable age %d", blockSlot, cInput.CommitmentID.Slot(), maxCommittableAge)
 			}
 
-- 
2.43.0


From 95fb77941713ca324372ee39e819eb4b4690e1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:27 +0000
Subject: [PATCH 04/47] fix: do not write to the strong parents slice of the
 caller when validating a block

If the slice had spare capacity the shallow like parents were appended into the
memory of the caller.
---
 block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/block.go b/block.go
index 6cde554..97b8772 100644
--- a/block.go
+++ b/block.go
@@ -293,7 +293,7 @@ func (b *Block) syntacticallyValidate() error {
 	block := b.Body
 	if len(block.WeakParentIDs()) > 0 {
 		// weak parents must be disjunct to the rest of the parents
-		nonWeakParents := lo.KeyOnlyBy(append(block.StrongParentIDs(), block.ShallowLikeParentIDs()...), func(v BlockID) BlockID {
+		nonWeakParents := lo.KeyOnlyBy(append(append(make(BlockIDs, 0), block.StrongParentIDs()...), block.ShallowLikeParentIDs()...), func(v BlockID) BlockID {
 			return v
 		})
 
-- 
2.43.0


From 971faf19f767fe0a95723cfb0ea9c02ea6df9aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:42 +0000
Subject: [PATCH 05/47] fix: MultiAddress.Clone panicked with index out of
 range

The slice was allocated with length 0 and then indexed, so cloning any output or
unlock condition with a multi address panicked.
---
 address_multi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address_multi.go b/address_multi.go
index 9a9a3d1..deb8ea3 100644
--- a/address_multi.go
+++ b/address_multi.go
@@ -61,7 +61,7 @@ type MultiAddress struct {
 
 func (addr *MultiAddress) Clone() Address {
 	cpy := &MultiAddress{
-		Addresses: make(AddressesWithWeight, 0, len(addr.Addresses)),
+		Addresses: make(AddressesWithWeight, len(addr.Addresses)),
 		Threshold: addr.Threshold,
 	}
 
-- 
2.43.0


From e9191b42d20d88cd4392d496761cbbb028de5d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:22 +0000
Subject: [PATCH 06/47] fix: BlockIssuerFeature.Clone shared the block issuer
 keys with the original

Sorting or changing the keys of the clone changed the original feature.
---
 feat_blockissuer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feat_blockissuer.go b/feat_blockissuer.go
index 400d315..ad0f898 100644
--- a/feat_blockissuer.go
+++ b/feat_blockissuer.go
@@ -40,7 +40,7 @@ type BlockIssuerFeature struct {
 func (s *BlockIssuerFeature) Clone() Feature {
 	return &BlockIssuerFeature{
 		ExpirySlot:      s.ExpirySlot,
-		BlockIssuerKeys: s.BlockIssuerKeys,
+		BlockIssuerKeys: s.BlockIssuerKeys.Clone(),
 	}
 }
 
-- 
2.43.0


From f3bdb69bcaa13398f1a6315f733d760255cd5c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 07/47] fix: DelegationOutput.Clone shared the validator
 address with the original

---
 output_delegation.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/output_delegation.go b/output_delegation.go
index 3d85146..1ef8a7a 100644
--- a/output_delegation.go
+++ b/output_delegation.go
@@ -116,7 +116,8 @@ func (d *DelegationOutput) Clone() Output {
 		Amount:           d.Amount,
 		DelegatedAmount:  d.DelegatedAmount,
 		DelegationID:     d.DelegationID,
-		ValidatorAddress: d.ValidatorAddress,
+		//nolint:forcetypeassert // we can safely assume that this is an AccountAddress
+		ValidatorAddress: d.ValidatorAddress.Clone().(*AccountAddress),
 		StartEpoch:       d.StartEpoch,
 		EndEpoch:         d.EndEpoch,
 		UnlockConditions: d.UnlockConditions.Clone(),
-- 
2.43.0


From 0c6e418ef4b4a746cde2d82be26da04c85df1112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 08/47] fix: data race in
 EpochBasedProvider.ProtocolEpochVersions

The versions were read without holding the lock.
---
 api_epoch_based_provider.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api_epoch_based_provider.go b/api_epoch_based_provider.go
index 356f7ba..892ec7f 100644
--- a/api_epoch_based_provider.go
+++ b/api_epoch_based_provider.go
@@ -217,6 +217,9 @@ func (e *EpochBasedProvider) ProtocolParametersHash(version Version) Identifier
 }
 
 func (e *EpochBasedProvider) ProtocolEpochVersions() []ProtocolEpochVersion {
+	e.mutex.RLock()
+	defer e.mutex.RUnlock()
+
 	return e.protocolVersions.Slice()
 }
 
-- 
2.43.0


From f242f35db5fa8d878f876677bcbfbd473707aba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:29 +0000
Subject: [PATCH 09/47] fix: data race in V3ProtocolParameters.Bytes

The cached bytes were checked without holding the lock.
---
 api_v3_protocol_parameters.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/api_v3_protocol_parameters.go b/api_v3_protocol_parameters.go
index 281bcff..f36d907 100644
--- a/api_v3_protocol_parameters.go
+++ b/api_v3_protocol_parameters.go
@@ -147,14 +147,10 @@ func (p *V3ProtocolParameters) ChainSwitchingThreshold() uint8 {
 }
 
 func (p *V3ProtocolParameters) Bytes() ([]byte, error) {
-	if len(p.bytes) > 0 {
-		return p.bytes, nil
-	}
-
 	p.bytesMutex.Lock()
 	defer p.bytesMutex.Unlock()
 
-	// Check if some other goroutine cached the bytes while waiting for the lock.
+	// Check if some other goroutine already cached the bytes.
 	if len(p.bytes) > 0 {
 		return p.bytes, nil
 	}
-- 
2.43.0


From ea76c829fd92f6fe1c083f05478d334b025b8ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:32 +0000
Subject: [PATCH 10/47] fix: TransactionEssence.Size did not include the length
 prefix of the payload

The size of transactions with a payload was 4 bytes too small, and with it the
work score, the Mana cost and the block size limit.
---
 transaction_essence.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transaction_essence.go b/transaction_essence.go
index d8dbc80..657a552 100644
--- a/transaction_essence.go
+++ b/transaction_essence.go
@@ -69,7 +69,7 @@ func (u *TransactionEssence) Clone() *TransactionEssence {
 func (u *TransactionEssence) Size() int {
 	payloadSize := serializer.PayloadLengthByteSize
 	if u.Payload != nil {
-		payloadSize = u.Payload.Size()
+		payloadSize += u.Payload.Size()
 	}
 
 	// NetworkID
-- 
2.43.0


From 53328ee0dee8685ef5071a72b0cbb01807409cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:32 +0000
Subject: [PATCH 11/47] fix: VM panicked on foundry creation during an implicit
 account transition

A transaction which transitions an implicit account and creates a foundry with
that account crashed the node instead of being invalid.
---
 vm/nova/vm.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vm/nova/vm.go b/vm/nova/vm.go
index 9f41510..0fe6648 100644
--- a/vm/nova/vm.go
+++ b/vm/nova/vm.go
@@ -808,8 +808,16 @@ func foundryGenesisValid(vmParams *vm.Params, current *iotago.FoundryOutput, thi
 		)
 	}
 
+	// an implicit account on the input side has no foundry counter and can't create foundries
+	inAccountOutput, ok := inAccount.Output.(*iotago.AccountOutput)
+	if !ok {
+		return ierrors.WithMessagef(iotago.ErrFoundryTransitionWithoutAccount,
+			"input of account %s for new foundry output %s is not an account output", accountID, thisFoundryID.ToHex(),
+		)
+	}
+
 	//nolint:forcetypeassert // we can safely assume that this is an AccountOutput
-	return foundrySerialNumberValid(vmParams, current, inAccount.Output.(*iotago.AccountOutput), outAccount.(*iotago.AccountOutput), thisFoundryID)
+	return foundrySerialNumberValid(vmParams, current, inAccountOutput, outAccount.(*iotago.AccountOutput), thisFoundryID)
 }
 
 func foundrySerialNumberValid(vmParams *vm.Params, current *iotago.FoundryOutput, inAccount *iotago.AccountOutput, outAccount *iotago.AccountOutput, thisFoundryID iotago.FoundryID) error {
-- 
2.43.0


From c9b77d535034b511287d77e1f27ac8b7f4de817b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:48 +0000
Subject: [PATCH 12/47] fix: Mana generation across epochs counted the genesis
 slot twice

With a genesis slot other than 0 the slots before the next epoch and since the
start of the epoch were too large by the genesis slot, so the Mana generated by an
output which crossed an epoch boundary was far too high.
---
 mana_decay_provider.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/mana_decay_provider.go b/mana_decay_provider.go
index ea66b3a..8b82932 100644
--- a/mana_decay_provider.go
+++ b/mana_decay_provider.go
@@ -179,6 +179,24 @@ func (p *ManaDecayProvider) DecayManaByEpochs(mana Mana, creationEpoch EpochInde
 	return p.decay(mana, targetEpoch-creationEpoch)
 }
 
+// slotsBeforeNextEpoch calculates the number of slots from the given slot until the start of the next epoch.
+func (p *ManaDecayProvider) slotsBeforeNextEpoch(slot SlotIndex) SlotIndex {
+	if slot < p.timeProvider.GenesisSlot() {
+		return 0
+	}
+
+	return p.timeProvider.EpochStart(p.timeProvider.EpochFromSlot(slot)+1) - slot
+}
+
+// slotsSinceEpochStart calculates the number of slots from the start of the epoch of the given slot.
+func (p *ManaDecayProvider) slotsSinceEpochStart(slot SlotIndex) SlotIndex {
+	if slot < p.timeProvider.GenesisSlot() {
+		return 0
+	}
+
+	return slot - p.timeProvider.EpochStart(p.timeProvider.EpochFromSlot(slot))
+}
+
 // GenerateManaAndDecayBySlots generates mana from the given base token amount and returns the decayed result.
 func (p *ManaDecayProvider) GenerateManaAndDecayBySlots(amount BaseToken, creationSlot SlotIndex, targetSlot SlotIndex) (Mana, error) {
 	if creationSlot > targetSlot {
@@ -203,7 +221,7 @@ func (p *ManaDecayProvider) GenerateManaAndDecayBySlots(amount BaseToken, creati
 	// case 1 means that the creationSlot and targetSlot belong to subsequent epochs.
 	// In that case, we generate the mana for the slots belonging to the first epoch and decay it, later we add it to the undecayed mana of the second epoch
 	case 1:
-		manaGeneratedFirstEpoch, err := p.generateMana(amount, p.timeProvider.SlotsBeforeNextEpoch(creationSlot))
+		manaGeneratedFirstEpoch, err := p.generateMana(amount, p.slotsBeforeNextEpoch(creationSlot))
 		if err != nil {
 			return 0, ierrors.Wrap(err, "failed to calculate generated mana in the first epoch")
 		}
@@ -213,7 +231,7 @@ func (p *ManaDecayProvider) GenerateManaAndDecayBySlots(amount BaseToken, creati
 			return 0, ierrors.Wrap(err, "failed to decay generated mana in the first epoch")
 		}
 
-		manaGeneratedSecondEpoch, err := p.generateMana(amount, p.timeProvider.SlotsSinceEpochStart(targetSlot))
+		manaGeneratedSecondEpoch, err := p.generateMana(amount, p.slotsSinceEpochStart(targetSlot))
 		if err != nil {
 			return 0, ierrors.Wrap(err, "failed to calculate generated mana in the second epoch")
 		}
@@ -228,7 +246,7 @@ func (p *ManaDecayProvider) GenerateManaAndDecayBySlots(amount BaseToken, creati
 	// the default case means that the creationSlot and targetSlot belong to separated epochs.
 	// Parts of the generated mana are decayed by epochDiff epochs, other parts by epochDiff-1, and other parts are not decayed at all
 	default:
-		manaGeneratedFirstEpoch, err := p.generateMana(amount, p.timeProvider.SlotsBeforeNextEpoch(creationSlot))
+		manaGeneratedFirstEpoch, err := p.generateMana(amount, p.slotsBeforeNextEpoch(creationSlot))
 		if err != nil {
 			return 0, ierrors.Wrap(err, "failed to calculate generated mana in the first epoch")
 		}
@@ -254,7 +272,7 @@ func (p *ManaDecayProvider) GenerateManaAndDecayBySlots(amount BaseToken, creati
 			return 0, ierrors.Wrap(err, "failed to decay generated mana in the intermediate epochs")
 		}
 
-		manaGeneratedLastEpoch, err := p.generateMana(amount, p.timeProvider.SlotsSinceEpochStart(targetSlot))
+		manaGeneratedLastEpoch, err := p.generateMana(amount, p.slotsSinceEpochStart(targetSlot))
 		if err != nil {
 			return 0, ierrors.Wrap(err, "failed to calculate generated mana in the last epoch")
 		}
-- 
2.43.0


From 75b92bb08b60e735ea9c9363aa2571ee36a35d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:41 +0000
Subject: [PATCH 13/47] fix: UnmarshalText of identifiers panicked on texts
 which are too long

A text which is too short was accepted and left the remaining bytes unchanged.
---
 block_id.gen.go              | 4 ++++
 commitment_id.gen.go         | 4 ++++
 gen/identifier.tmpl          | 4 ++++
 gen/slot_identifier.tmpl     | 4 ++++
 identifier.gen.go            | 4 ++++
 identifier_account.gen.go    | 4 ++++
 identifier_anchor.gen.go     | 4 ++++
 output_id.gen.go             | 4 ++++
 signed_transaction_id.gen.go | 4 ++++
 transaction_id.gen.go        | 4 ++++
 10 files changed, 40 insertions(+)

diff --git a/block_id.gen.go b/block_id.gen.go
index e98d820..1fcca46 100644
--- a/block_id.gen.go
+++ b/block_id.gen.go
@@ -92,6 +92,10 @@ func (b BlockID) MarshalText() (text []byte, err error) {
 }
 
 func (b *BlockID) UnmarshalText(text []byte) error {
+	if hex.DecodedLen(len(text)) != BlockIDLength {
+		return ierrors.Errorf("invalid BlockID text length: expected %d characters, got %d", hex.EncodedLen(BlockIDLength), len(text))
+	}
+
 	_, err := hex.Decode(b[:], text)
 
 	return err
diff --git a/commitment_id.gen.go b/commitment_id.gen.go
index 1ea2a0f..6ed3ece 100644
--- a/commitment_id.gen.go
+++ b/commitment_id.gen.go
@@ -92,6 +92,10 @@ func (c CommitmentID) MarshalText() (text []byte, err error) {
 }
 
 func (c *CommitmentID) UnmarshalText(text []byte) error {
+	if hex.DecodedLen(len(text)) != CommitmentIDLength {
+		return ierrors.Errorf("invalid CommitmentID text length: expected %d characters, got %d", hex.EncodedLen(CommitmentIDLength), len(text))
+	}
+
 	_, err := hex.Decode(c[:], text)
 
 	return err
diff --git a/gen/identifier.tmpl b/gen/identifier.tmpl
index 114670f..615d5ca 100644
--- a/gen/identifier.tmpl
+++ b/gen/identifier.tmpl
@@ -84,6 +84,10 @@ func ({{.Receiver}} {{.Name}}) MarshalText() (text []byte, err error) {
 }
 
 func ({{.Receiver}} *{{.Name}}) UnmarshalText(text []byte) error {
+	if hex.DecodedLen(len(text)) != {{.Name}}Length {
+		return ierrors.Errorf("invalid {{.Name}} text length: expected %d characters, got %d", hex.EncodedLen({{.Name}}Length), len(text))
+	}
+
 	_, err := hex.Decode({{.Receiver}}[:], text)
 
 	return err
diff --git a/gen/slot_identifier.tmpl b/gen/slot_identifier.tmpl
index 4ee3a39..efc1271 100644
--- a/gen/slot_identifier.tmpl
+++ b/gen/slot_identifier.tmpl
@@ -108,6 +108,10 @@ func ({{.Receiver}} {{.Name}}) MarshalText() (text []byte, err error) {
 }
 
 func ({{.Receiver}} *{{.Name}}) UnmarshalText(text []byte) error {
+	if hex.DecodedLen(len(text)) != {{.Name}}Length {
+		return ierrors.Errorf("invalid {{.Name}} text length: expected %d characters, got %d", hex.EncodedLen({{.Name}}Length), len(text))
+	}
+
 	_, err := hex.Decode({{.Receiver}}[:], text)
 
 	return err
diff --git a/identifier.gen.go b/identifier.gen.go
index 9039988..290cc33 100644
--- a/identifier.gen.go
+++ b/identifier.gen.go
@@ -84,6 +84,10 @@ func (i Identifier) MarshalText() (text []byte, err error) {
 }
 
 func (i *Identifier) UnmarshalText(text []byte) error {
+	if hex.DecodedLen(len(text)) != IdentifierLength {
+		return ierrors.Errorf("invalid Identifier text length: expected %d characters, got %d", hex.EncodedLen(IdentifierLength), len(text))
+	}
+
 	_, err := hex.Decode(i[:], text)
 
 	return err
diff --git a/identifier_account.gen.go b/identifier_account.gen.go
index 155f55d..c2b34b8 100644
--- a/identifier_account.gen.go
+++ b/identifier_account.gen.go
@@ -84,6 +84,10 @@ func (a AccountID) MarshalText() (text []byte, err error) {
 }
 
 func (a *AccountID) UnmarshalText(text []byte) error {
+	if hex.DecodedLen(len(text)) != AccountIDLength {
+		return ierrors.Errorf("invalid AccountID text length: expected %d characters, got %d", hex.EncodedLen(AccountIDLength), len(text))
+	}
+
 	_, err := hex.Decode(a[:], text)
 
 	return err
diff --git a/identifier_anchor.gen.go b/identifier_anchor.gen.go
index 32f009d..2cede66 100644
--- a/identifier_anchor.gen.go
+++ b/identifier_anchor.gen.go
@@ -84,6 +84,10 @@ func (a AnchorID) MarshalText() (text []byte, err error) {
 }
 
 func (a *AnchorID) UnmarshalText(text []byte) error {
+	if hex.DecodedLen(len(text)) != AnchorIDLength {
+		return ierrors.Errorf("invalid AnchorID text length: expected %d characters, got %d", hex.EncodedLen(AnchorIDLength), len(text))
+	}
+
 	_, err := hex.Decode(a[:], text)
 
 	return err
diff --git a/output_id.gen.go b/output_id.gen.go
index 77af5e6..9dc3b27 100644
--- a/output_id.gen.go
+++ b/output_id.gen.go
@@ -82,6 +82,10 @@ func (o OutputID) MarshalText() (text []byte, err error) {
 }
 
 func (o *OutputID) UnmarshalText(text []byte) error {
+	if hex.DecodedLen(len(text)) != OutputIDLength {
+		return ierrors.Errorf("invalid OutputID text length: expected %d characters, got %d", hex.EncodedLen(OutputIDLength), len(text))
+	}
+
 	_, err := hex.Decode(o[:], text)
 
 	return err
diff --git a/signed_transaction_id.gen.go b/signed_transaction_id.gen.go
index 8ecf09f..83c2a47 100644
--- a/signed_transaction_id.gen.go
+++ b/signed_transaction_id.gen.go
@@ -92,6 +92,10 @@ func (t SignedTransactionID) MarshalText() (text []byte, err error) {
 }
 
 func (t *SignedTransactionID) UnmarshalText(text []byte) error {
+	if hex.DecodedLen(len(text)) != SignedTransactionIDLength {
+		return ierrors.Errorf("invalid SignedTransactionID text length: expected %d characters, got %d", hex.EncodedLen(SignedTransactionIDLength), len(text))
+	}
+
 	_, err := hex.Decode(t[:], text)
 
 	return err
diff --git a/transaction_id.gen.go b/transaction_id.gen.go
index 85b702b..ee4d38b 100644
--- a/transaction_id.gen.go
+++ b/transaction_id.gen.go
@@ -92,6 +92,10 @@ func (t TransactionID) MarshalText() (text []byte, err error) {
 }
 
 func (t *TransactionID) UnmarshalText(text []byte) error {
+	if hex.DecodedLen(len(text)) != TransactionIDLength {
+		return ierrors.Errorf("invalid TransactionID text length: expected %d characters, got %d", hex.EncodedLen(TransactionIDLength), len(text))
+	}
+
 	_, err := hex.Decode(t[:], text)
 
 	return err
-- 
2.43.0


From 47f6c20c92261c2873ee9800e67f0b573f9d5fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 14/47] fix: hex strings with extra bytes were accepted as
 identifiers

The extra bytes were silently dropped, so that different strings were parsed to the
same identifier.
---
 block_id.gen.go              | 4 ++++
 commitment_id.gen.go         | 4 ++++
 gen/identifier.tmpl          | 4 ++++
 gen/slot_identifier.tmpl     | 4 ++++
 identifier.gen.go            | 4 ++++
 identifier_account.gen.go    | 4 ++++
 identifier_anchor.gen.go     | 4 ++++
 output_id.gen.go             | 4 ++++
 signed_transaction_id.gen.go | 4 ++++
 transaction_id.gen.go        | 4 ++++
 10 files changed, 40 insertions(+)

diff --git a/block_id.gen.go b/block_id.gen.go
index 1fcca46..be73cde 100644
--- a/block_id.gen.go
+++ b/block_id.gen.go
@@ -47,6 +47,10 @@ func BlockIDFromHexString(hex string) (BlockID, error) {
 		return EmptyBlockID, err
 	}
 
+	if err := IsValidBlockID(b); err != nil {
+		return EmptyBlockID, err
+	}
+
 	s, _, err := BlockIDFromBytes(b)
 
 	return s, err
diff --git a/commitment_id.gen.go b/commitment_id.gen.go
index 6ed3ece..1ba7cef 100644
--- a/commitment_id.gen.go
+++ b/commitment_id.gen.go
@@ -47,6 +47,10 @@ func CommitmentIDFromHexString(hex string) (CommitmentID, error) {
 		return EmptyCommitmentID, err
 	}
 
+	if err := IsValidCommitmentID(b); err != nil {
+		return EmptyCommitmentID, err
+	}
+
 	s, _, err := CommitmentIDFromBytes(b)
 
 	return s, err
diff --git a/gen/identifier.tmpl b/gen/identifier.tmpl
index 615d5ca..88cc219 100644
--- a/gen/identifier.tmpl
+++ b/gen/identifier.tmpl
@@ -38,6 +38,10 @@ func {{.Name}}FromHexString(hex string) ({{.Name}}, error) {
 		return Empty{{.Name}}, err
 	}
 
+	if err := IsValid{{.Name}}(bytes); err != nil {
+		return Empty{{.Name}}, err
+	}
+
 	{{.Receiver}}, _, err := {{.Name}}FromBytes(bytes)
 
 	return {{.Receiver}}, err
diff --git a/gen/slot_identifier.tmpl b/gen/slot_identifier.tmpl
index efc1271..f1cb35f 100644
--- a/gen/slot_identifier.tmpl
+++ b/gen/slot_identifier.tmpl
@@ -63,6 +63,10 @@ func {{.Name}}FromHexString(hex string) ({{.Name}}, error) {
 		return Empty{{.Name}}, err
 	}
 
+	if err := IsValid{{.Name}}(b); err != nil {
+		return Empty{{.Name}}, err
+	}
+
 	s, _, err := {{.Name}}FromBytes(b)
 
 	return s, err
diff --git a/identifier.gen.go b/identifier.gen.go
index 290cc33..13b16c9 100644
--- a/identifier.gen.go
+++ b/identifier.gen.go
@@ -38,6 +38,10 @@ func IdentifierFromHexString(hex string) (Identifier, error) {
 		return EmptyIdentifier, err
 	}
 
+	if err := IsValidIdentifier(bytes); err != nil {
+		return EmptyIdentifier, err
+	}
+
 	i, _, err := IdentifierFromBytes(bytes)
 
 	return i, err
diff --git a/identifier_account.gen.go b/identifier_account.gen.go
index c2b34b8..e990c00 100644
--- a/identifier_account.gen.go
+++ b/identifier_account.gen.go
@@ -38,6 +38,10 @@ func AccountIDFromHexString(hex string) (AccountID, error) {
 		return EmptyAccountID, err
 	}
 
+	if err := IsValidAccountID(bytes); err != nil {
+		return EmptyAccountID, err
+	}
+
 	a, _, err := AccountIDFromBytes(bytes)
 
 	return a, err
diff --git a/identifier_anchor.gen.go b/identifier_anchor.gen.go
index 2cede66..11b1a59 100644
--- a/identifier_anchor.gen.go
+++ b/identifier_anchor.gen.go
@@ -38,6 +38,10 @@ func AnchorIDFromHexString(hex string) (AnchorID, error) {
 		return EmptyAnchorID, err
 	}
 
+	if err := IsValidAnchorID(bytes); err != nil {
+		return EmptyAnchorID, err
+	}
+
 	a, _, err := AnchorIDFromBytes(bytes)
 
 	return a, err
diff --git a/output_id.gen.go b/output_id.gen.go
index 9dc3b27..d13f09e 100644
--- a/output_id.gen.go
+++ b/output_id.gen.go
@@ -37,6 +37,10 @@ func OutputIDFromHexString(hex string) (OutputID, error) {
 		return EmptyOutputID, err
 	}
 
+	if err := IsValidOutputID(b); err != nil {
+		return EmptyOutputID, err
+	}
+
 	s, _, err := OutputIDFromBytes(b)
 
 	return s, err
diff --git a/signed_transaction_id.gen.go b/signed_transaction_id.gen.go
index 83c2a47..fe7d5e2 100644
--- a/signed_transaction_id.gen.go
+++ b/signed_transaction_id.gen.go
@@ -47,6 +47,10 @@ func SignedTransactionIDFromHexString(hex string) (SignedTransactionID, error) {
 		return EmptySignedTransactionID, err
 	}
 
+	if err := IsValidSignedTransactionID(b); err != nil {
+		return EmptySignedTransactionID, err
+	}
+
 	s, _, err := SignedTransactionIDFromBytes(b)
 
 	return s, err
diff --git a/transaction_id.gen.go b/transaction_id.gen.go
index ee4d38b..5256f93 100644
--- a/transaction_id.gen.go
+++ b/transaction_id.gen.go
@@ -47,6 +47,10 @@ func TransactionIDFromHexString(hex string) (TransactionID, error) {
 		return EmptyTransactionID, err
 	}
 
+	if err := IsValidTransactionID(b); err != nil {
+		return EmptyTransactionID, err
+	}
+
 	s, _, err := TransactionIDFromBytes(b)
 
 	return s, err
-- 
2.43.0


From 4dbc56323da96cadf7ad3899d1750fb9fafbd20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:04 +0000
Subject: [PATCH 15/47] fix: FromBytes of identifiers returned the length of
 the input as consumed bytes

---
 gen/identifier.tmpl       | 2 +-
 identifier.gen.go         | 2 +-
 identifier_account.gen.go | 2 +-
 identifier_anchor.gen.go  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gen/identifier.tmpl b/gen/identifier.tmpl
index 88cc219..b13e1eb 100644
--- a/gen/identifier.tmpl
+++ b/gen/identifier.tmpl
@@ -73,7 +73,7 @@ func {{.Name}}FromBytes(bytes []byte) ({{.Name}}, int, error) {
 	}
 	copy({{.Receiver}}[:], bytes)
 
-	return {{.Receiver}}, len(bytes), nil
+	return {{.Receiver}}, {{.Name}}Length, nil
 }
 
 func ({{.Receiver}} {{.Name}}) Bytes() ([]byte, error) {
diff --git a/identifier.gen.go b/identifier.gen.go
index 13b16c9..f9924e1 100644
--- a/identifier.gen.go
+++ b/identifier.gen.go
@@ -73,7 +73,7 @@ func IdentifierFromBytes(bytes []byte) (Identifier, int, error) {
 	}
 	copy(i[:], bytes)
 
-	return i, len(bytes), nil
+	return i, IdentifierLength, nil
 }
 
 func (i Identifier) Bytes() ([]byte, error) {
diff --git a/identifier_account.gen.go b/identifier_account.gen.go
index e990c00..9ee9a7e 100644
--- a/identifier_account.gen.go
+++ b/identifier_account.gen.go
@@ -73,7 +73,7 @@ func AccountIDFromBytes(bytes []byte) (AccountID, int, error) {
 	}
 	copy(a[:], bytes)
 
-	return a, len(bytes), nil
+	return a, AccountIDLength, nil
 }
 
 func (a AccountID) Bytes() ([]byte, error) {
diff --git a/identifier_anchor.gen.go b/identifier_anchor.gen.go
index 11b1a59..b495f7b 100644
--- a/identifier_anchor.gen.go
+++ b/identifier_anchor.gen.go
@@ -73,7 +73,7 @@ func AnchorIDFromBytes(bytes []byte) (AnchorID, int, error) {
 	}
 	copy(a[:], bytes)
 
-	return a, len(bytes), nil
+	return a, AnchorIDLength, nil
 }
 
 func (a AnchorID) Bytes() ([]byte, error) {
-- 
2.43.0


From 5f5ade3b452017b4b557fdcc312c26b8f51b8558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:54 +0000
Subject: [PATCH 16/47] fix: bech32.Decode panicked on or accepted non US-ASCII
 characters

Characters which change their length when they are converted to lower or upper case
caused an index out of range, and the Kelvin sign was accepted as a k.
---
 bech32/bech32.go | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/bech32/bech32.go b/bech32/bech32.go
index c6faca6..dd72411 100644
--- a/bech32/bech32.go
+++ b/bech32/bech32.go
@@ -88,7 +88,7 @@ func Decode(s string) (string, []byte, error) {
 	}
 
 	// convert everything to lower
-	s = strings.ToLower(s)
+	s = toLower(s)
 	hrp := s[:hrpLen]
 	chars := s[hrpLen+1:]
 
@@ -135,24 +135,23 @@ func validateCase(s string) error {
 	return nil
 }
 
-func firstUpper(s string) int {
-	lower := strings.ToLower(s)
-	for i := range s {
-		if lower[i] != s[i] {
-			return i
+// toLower converts the US-ASCII letters to lower case.
+// Other characters must not be touched, because they can be mapped to US-ASCII letters and have another length.
+func toLower(s string) string {
+	b := []byte(s)
+	for i, c := range b {
+		if 'A' <= c && c <= 'Z' {
+			b[i] = c + ('a' - 'A')
 		}
 	}
 
-	return -1
+	return string(b)
 }
 
-func firstLower(s string) int {
-	lower := strings.ToUpper(s)
-	for i := range s {
-		if lower[i] != s[i] {
-			return i
-		}
-	}
+func firstUpper(s string) int {
+	return strings.IndexFunc(s, func(r rune) bool { return 'A' <= r && r <= 'Z' })
+}
 
-	return -1
+func firstLower(s string) int {
+	return strings.IndexFunc(s, func(r rune) bool { return 'a' <= r && r <= 'z' })
 }
-- 
2.43.0


From e822edb9427ed627741f5aa3e3929ef6474c39c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:56 +0000
Subject: [PATCH 17/47] fix: check the length of hex encoded output IDs

SplitParts panicked on hex strings which are too short and HexOutputIDs.OutputIDs
accepted strings of any length, e.g. in the response of an indexer.
---
 output_id.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/output_id.go b/output_id.go
index 2677f9d..a0edfe9 100644
--- a/output_id.go
+++ b/output_id.go
@@ -85,6 +85,9 @@ func (oih OutputIDHex) SplitParts() (*TransactionID, uint16, error) {
 	if err != nil {
 		return nil, 0, err
 	}
+	if err := IsValidOutputID(outputIDBytes); err != nil {
+		return nil, 0, err
+	}
 	var txID TransactionID
 	copy(txID[:], outputIDBytes[:TransactionIDLength])
 	outputIndex := binary.LittleEndian.Uint16(outputIDBytes[TransactionIDLength : TransactionIDLength+serializer.UInt16ByteSize])
@@ -135,11 +138,11 @@ func (ids HexOutputIDs) MustOutputIDs() OutputIDs {
 func (ids HexOutputIDs) OutputIDs() (OutputIDs, error) {
 	vals := make(OutputIDs, len(ids))
 	for i, v := range ids {
-		val, err := hexutil.DecodeHex(string(v))
+		val, err := OutputIDFromHexString(string(v))
 		if err != nil {
 			return nil, err
 		}
-		copy(vals[i][:], val)
+		vals[i] = val
 	}
 
 	return vals, nil
-- 
2.43.0


From 1bba2b8d81659717447d970335293216d5d178ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:58 +0000
Subject: [PATCH 18/47] fix: BlockIssuerKeyFromBytes always failed

The decoder was given a nil interface instead of a pointer to it.
---
 block_issuer_key.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/block_issuer_key.go b/block_issuer_key.go
index 7f6a39e..45cfad5 100644
--- a/block_issuer_key.go
+++ b/block_issuer_key.go
@@ -177,7 +177,7 @@ func BlockIssuerKeyFromReader(reader io.ReadSeeker) (BlockIssuerKey, error) {
 func BlockIssuerKeyFromBytes(bytes []byte) (BlockIssuerKey, int, error) {
 	var blockIssuerKey BlockIssuerKey
 
-	n, err := CommonSerixAPI().Decode(context.TODO(), bytes, blockIssuerKey)
+	n, err := CommonSerixAPI().Decode(context.TODO(), bytes, &blockIssuerKey)
 	if err != nil {
 		return nil, 0, ierrors.Wrap(err, "unable to decode block issuer key")
 	}
-- 
2.43.0


From b31209f9599a982317e0a50d8587514cbb1b687c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:26 +0000
Subject: [PATCH 19/47] fix: ParseBech32 accepted invalid addresses and dropped
 trailing bytes

Bytes after a multi address or a restricted multi address were ignored, and restricted
addresses with invalid capabilities or nested addresses were accepted.
---
 address.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/address.go b/address.go
index 49e8c3f..07941cf 100644
--- a/address.go
+++ b/address.go
@@ -221,11 +221,15 @@ func ParseBech32(s string) (NetworkPrefix, Address, error) {
 	//nolint:exhaustive
 	switch addrType {
 	case AddressMulti:
-		multiAddrRef, _, err := MultiAddressReferenceFromBytes(addrData)
+		multiAddrRef, consumed, err := MultiAddressReferenceFromBytes(addrData)
 		if err != nil {
 			return "", nil, ierrors.Wrap(err, "invalid multi address")
 		}
 
+		if consumed != len(addrData) {
+			return "", nil, serializer.ErrDeserializationNotAllConsumed
+		}
+
 		return NetworkPrefix(hrp), multiAddrRef, nil
 
 	case AddressRestricted:
@@ -240,11 +244,19 @@ func ParseBech32(s string) (NetworkPrefix, Address, error) {
 			}
 
 			// get the address capabilities from the remaining bytes
-			capabilities, _, err := AddressCapabilitiesBitMaskFromBytes(addrData[1+consumed:])
+			capabilities, consumedCapabilities, err := AddressCapabilitiesBitMaskFromBytes(addrData[1+consumed:])
 			if err != nil {
 				return "", nil, ierrors.Wrap(err, "invalid restricted address capabilities")
 			}
 
+			if err := BitMaskNonTrailingZeroBytesValidatorFunc(capabilities); err != nil {
+				return "", nil, ierrors.Wrap(err, "invalid restricted address capabilities")
+			}
+
+			if 1+consumed+consumedCapabilities != len(addrData) {
+				return "", nil, serializer.ErrDeserializationNotAllConsumed
+			}
+
 			return NetworkPrefix(hrp), &RestrictedAddress{
 				Address:             multiAddrRef,
 				AllowedCapabilities: capabilities,
@@ -258,7 +270,7 @@ func ParseBech32(s string) (NetworkPrefix, Address, error) {
 	}
 
 	serixAPI := CommonSerixAPI()
-	n, err := serixAPI.Decode(context.TODO(), addrData, addr)
+	n, err := serixAPI.Decode(context.TODO(), addrData, addr, serix.WithValidation())
 	if err != nil {
 		return "", nil, err
 	}
-- 
2.43.0


From 8ce390f51f6d5bd1274b7606481dc7fdbda44525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:54 +0000
Subject: [PATCH 20/47] fix: new features of BlockIssuerTransition and
 StakingTransition were never set on the account

If the feature did not exist yet, everything set by the transition was lost.
---
 builder/output_builder_account.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/builder/output_builder_account.go b/builder/output_builder_account.go
index 37a659e..fdb9b1c 100644
--- a/builder/output_builder_account.go
+++ b/builder/output_builder_account.go
@@ -169,6 +169,7 @@ func (builder *AccountOutputBuilder) BlockIssuerTransition() *BlockIssuerTransit
 			BlockIssuerKeys: iotago.NewBlockIssuerKeys(),
 			ExpirySlot:      0,
 		}
+		builder.output.Features.Upsert(blockIssuerFeature)
 	}
 
 	return &BlockIssuerTransition{
@@ -188,6 +189,7 @@ func (builder *AccountOutputBuilder) StakingTransition() *StakingTransition {
 			StartEpoch:   0,
 			EndEpoch:     0,
 		}
+		builder.output.Features.Upsert(stakingFeature)
 	}
 
 	return &StakingTransition{
-- 
2.43.0


From 46a40ba010176474941021f5c730e9160f9faec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:54 +0000
Subject: [PATCH 21/47] fix: Mine returned ErrCanceled for invalid target
 trailing zeros

---
 blockissuer/pow/worker.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blockissuer/pow/worker.go b/blockissuer/pow/worker.go
index a2af40a..456fff6 100644
--- a/blockissuer/pow/worker.go
+++ b/blockissuer/pow/worker.go
@@ -42,6 +42,10 @@ func New(numWorkers ...int) *Worker {
 // It returns a nonce that appended to data results in at least targetTrailingZeros.
 // The computation can be canceled anytime using ctx.
 func (w *Worker) Mine(ctx context.Context, data []byte, targetTrailingZeros int) (uint64, error) {
+	if targetTrailingZeros > MaxTrailingZeros {
+		return 0, ErrInvalidTargetTrailingZeroes
+	}
+
 	var (
 		done    uint32
 		wg      sync.WaitGroup
-- 
2.43.0


From ee3df7a2df2f28878b7dc9d0a85c4b47462453c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:57 +0000
Subject: [PATCH 22/47] fix: ComputeProofForIndex returned the proof of another
 value for negative indexes

---
 merklehasher/merkle_proof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merklehasher/merkle_proof.go b/merklehasher/merkle_proof.go
index 07019c9..e40bac5 100644
--- a/merklehasher/merkle_proof.go
+++ b/merklehasher/merkle_proof.go
@@ -81,7 +81,7 @@ func (t *Hasher[V]) ComputeProofForIndex(values []V, index int) (*Proof[V], erro
 	if len(values) < 1 {
 		return nil, ierrors.New("at least one item is needed to create an inclusion proof")
 	}
-	if index >= len(values) {
+	if index < 0 || index >= len(values) {
 		return nil, ierrors.Errorf("index %d out of bounds for 'values' of len %d", index, len(values))
 	}
 
-- 
2.43.0


From c06a6d6ad27cddc8b6d782974135fbb8e9f75bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:59 +0000
Subject: [PATCH 23/47] fix: InMemoryAddressSigner did not find the keys of
 restricted addresses

The keys were stored by the restricted address but looked up by its underlying address.
---
 address_signer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/address_signer.go b/address_signer.go
index 6dbcb7e..501144e 100644
--- a/address_signer.go
+++ b/address_signer.go
@@ -70,7 +70,12 @@ func NewInMemoryAddressSigner(addrKeys ...AddressKeys) AddressSigner {
 		addrKeys: map[string]interface{}{},
 	}
 	for _, c := range addrKeys {
-		ss.addrKeys[c.Address.Key()] = c.Keys
+		addr := c.Address
+		if restrictedAddr, isRestricted := addr.(*RestrictedAddress); isRestricted {
+			// the keys are looked up by the underlying address
+			addr = restrictedAddr.Address
+		}
+		ss.addrKeys[addr.Key()] = c.Keys
 	}
 
 	return ss
-- 
2.43.0


From cd81e16330152dd2e5b32f9e6dba36866dad7eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:15 +0000
Subject: [PATCH 24/47] fix: HTTP error responses without a JSON body lost
 their status code error

Errors of e.g. a proxy in front of the node did not match any of the ErrHTTP errors.
---
 nodeclient/http.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nodeclient/http.go b/nodeclient/http.go
index 48bf16e..e29591b 100644
--- a/nodeclient/http.go
+++ b/nodeclient/http.go
@@ -88,7 +88,8 @@ func interpretBody(ctx context.Context, serixAPI *serix.API, res *http.Response,
 	errRes := &HTTPErrorResponseEnvelope{}
 	if len(resBody) > 0 {
 		if err := json.Unmarshal(resBody, errRes); err != nil {
-			return ierrors.Wrap(err, "unable to read error from response body")
+			// the error might originate from a proxy, the status code must not get lost
+			errRes.Error.Message = string(resBody)
 		}
 	}
 
-- 
2.43.0


From 0f2e05a10f0f61a2850a8e9e827b899d657392f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:31 +0000
Subject: [PATCH 25/47] fix: indexer client panicked on malformed output IDs in
 the response

---
 nodeclient/indexer_client.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nodeclient/indexer_client.go b/nodeclient/indexer_client.go
index 7f86996..04a4f61 100644
--- a/nodeclient/indexer_client.go
+++ b/nodeclient/indexer_client.go
@@ -81,7 +81,11 @@ func (resultSet *IndexerResultSet) Next() bool {
 
 // Outputs collects/fetches the outputs result from the query.
 func (resultSet *IndexerResultSet) Outputs(ctx context.Context) (iotago.Outputs[iotago.Output], error) {
-	outputIDs := resultSet.Response.Items.MustOutputIDs()
+	outputIDs, err := resultSet.Response.Items.OutputIDs()
+	if err != nil {
+		return nil, ierrors.Wrap(err, "invalid output IDs in the response")
+	}
+
 	outputs := make(iotago.Outputs[iotago.Output], len(outputIDs))
 	for i, outputID := range outputIDs {
 		output, err := resultSet.client.OutputByID(ctx, outputID)
@@ -163,7 +167,12 @@ func (client *indexerClient) singleOutputQuery(ctx context.Context, route string
 		return nil, nil, res.CommittedSlot, ierrors.WithMessagef(ErrIndexerNotFound, "route %s", route)
 	}
 
-	outputID := res.Items.MustOutputIDs()[0]
+	outputIDs, err := res.Items.OutputIDs()
+	if err != nil {
+		return nil, nil, res.CommittedSlot, ierrors.Wrap(err, "invalid output IDs in the response")
+	}
+
+	outputID := outputIDs[0]
 	output, err := client.core.OutputByID(ctx, outputID)
 	if err != nil {
 		return nil, nil, res.CommittedSlot, err
-- 
2.43.0


From 024f482232028254f8a6a0f54af994fda60ba607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:32 +0000
Subject: [PATCH 26/47] fix: indexer client panicked if the node returned an
 output of another type

---
 nodeclient/indexer_client.go | 40 +++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/nodeclient/indexer_client.go b/nodeclient/indexer_client.go
index 04a4f61..1743caf 100644
--- a/nodeclient/indexer_client.go
+++ b/nodeclient/indexer_client.go
@@ -187,8 +187,12 @@ func (client *indexerClient) Account(ctx context.Context, accountAddress *iotago
 		return nil, nil, ledgerIndex, err
 	}
 
-	//nolint:forcetypeassert // we can safely assume that this is an AccountOutput
-	return outputID, output.(*iotago.AccountOutput), ledgerIndex, nil
+	typedOutput, is := output.(*iotago.AccountOutput)
+	if !is {
+		return nil, nil, ledgerIndex, ierrors.Errorf("unexpected output type in the response: %T", output)
+	}
+
+	return outputID, typedOutput, ledgerIndex, nil
 }
 
 func (client *indexerClient) Anchor(ctx context.Context, anchorAddress *iotago.AnchorAddress) (*iotago.OutputID, *iotago.AnchorOutput, iotago.SlotIndex, error) {
@@ -197,8 +201,12 @@ func (client *indexerClient) Anchor(ctx context.Context, anchorAddress *iotago.A
 		return nil, nil, ledgerIndex, err
 	}
 
-	//nolint:forcetypeassert // we can safely assume that this is an AnchorOutput
-	return outputID, output.(*iotago.AnchorOutput), ledgerIndex, nil
+	typedOutput, is := output.(*iotago.AnchorOutput)
+	if !is {
+		return nil, nil, ledgerIndex, ierrors.Errorf("unexpected output type in the response: %T", output)
+	}
+
+	return outputID, typedOutput, ledgerIndex, nil
 }
 
 func (client *indexerClient) Foundry(ctx context.Context, foundryID iotago.FoundryID) (*iotago.OutputID, *iotago.FoundryOutput, iotago.SlotIndex, error) {
@@ -207,8 +215,12 @@ func (client *indexerClient) Foundry(ctx context.Context, foundryID iotago.Found
 		return nil, nil, ledgerIndex, err
 	}
 
-	//nolint:forcetypeassert // we can safely assume that this is an FoundryOutput
-	return outputID, output.(*iotago.FoundryOutput), ledgerIndex, nil
+	typedOutput, is := output.(*iotago.FoundryOutput)
+	if !is {
+		return nil, nil, ledgerIndex, ierrors.Errorf("unexpected output type in the response: %T", output)
+	}
+
+	return outputID, typedOutput, ledgerIndex, nil
 }
 
 func (client *indexerClient) NFT(ctx context.Context, nftAddress *iotago.NFTAddress) (*iotago.OutputID, *iotago.NFTOutput, iotago.SlotIndex, error) {
@@ -217,8 +229,12 @@ func (client *indexerClient) NFT(ctx context.Context, nftAddress *iotago.NFTAddr
 		return nil, nil, ledgerIndex, err
 	}
 
-	//nolint:forcetypeassert // we can safely assume that this is an NFTOutput
-	return outputID, output.(*iotago.NFTOutput), ledgerIndex, nil
+	typedOutput, is := output.(*iotago.NFTOutput)
+	if !is {
+		return nil, nil, ledgerIndex, ierrors.Errorf("unexpected output type in the response: %T", output)
+	}
+
+	return outputID, typedOutput, ledgerIndex, nil
 }
 
 func (client *indexerClient) Delegation(ctx context.Context, delegationID iotago.DelegationID) (*iotago.OutputID, *iotago.DelegationOutput, iotago.SlotIndex, error) {
@@ -227,6 +243,10 @@ func (client *indexerClient) Delegation(ctx context.Context, delegationID iotago
 		return nil, nil, ledgerIndex, err
 	}
 
-	//nolint:forcetypeassert // we can safely assume that this is a DelegationOutput
-	return outputID, output.(*iotago.DelegationOutput), ledgerIndex, nil
+	typedOutput, is := output.(*iotago.DelegationOutput)
+	if !is {
+		return nil, nil, ledgerIndex, ierrors.Errorf("unexpected output type in the response: %T", output)
+	}
+
+	return outputID, typedOutput, ledgerIndex, nil
 }
-- 
2.43.0


From d43c55f99d2433360244f69f71e8aa2da6c8e722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:16 +0000
Subject: [PATCH 27/47] fix: Transaction.String and SignedTransaction.String
 always panicked

---
 signed_transaction.go |  2 +-
 transaction.go        | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/signed_transaction.go b/signed_transaction.go
index 61d333d..d93178d 100644
--- a/signed_transaction.go
+++ b/signed_transaction.go
@@ -93,7 +93,7 @@ func (t *SignedTransaction) SetDeserializationContext(ctx context.Context) {
 func (t *SignedTransaction) String() string {
 	return stringify.Struct("SignedTransaction",
 		stringify.NewStructField("Transaction", t.Transaction),
-		stringify.NewStructField("Unlocks", t.Unlocks),
+		stringify.NewStructField("Unlocks", stringifyElements(t.Unlocks)),
 	)
 }
 
diff --git a/transaction.go b/transaction.go
index 70d6993..45dd08c 100644
--- a/transaction.go
+++ b/transaction.go
@@ -3,6 +3,7 @@ package iotago
 import (
 	"context"
 	"crypto"
+	"fmt"
 
 	"golang.org/x/crypto/blake2b"
 
@@ -325,10 +326,15 @@ func (t *Transaction) WorkScore(workScoreParameters *WorkScoreParameters) (WorkS
 	return workscoreTransactionEssence.Add(workScoreOutputs)
 }
 
+// stringifyElements returns human readable versions of the elements.
+func stringifyElements[T any](elements []T) []string {
+	return lo.Map(elements, func(element T) string { return fmt.Sprintf("%+v", element) })
+}
+
 // String returns a human readable version of the Transaction.
 func (t *Transaction) String() string {
 	return stringify.Struct("Transaction",
-		stringify.NewStructField("TransactionEssence", t.TransactionEssence),
-		stringify.NewStructField("Outputs", t.Outputs),
+		stringify.NewStructField("TransactionEssence", fmt.Sprintf("%+v", t.TransactionEssence)),
+		stringify.NewStructField("Outputs", stringifyElements(t.Outputs)),
 	)
 }
-- 
2.43.0


From 609439dff49244712e8682d96f8ea268ec9f23a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 28/47] fix: ParseImplicitAccountCreationAddressFromHexString
 accepted extra bytes

---
 address_implicit_account_creation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address_implicit_account_creation.go b/address_implicit_account_creation.go
index aecc20e..e9f78be 100644
--- a/address_implicit_account_creation.go
+++ b/address_implicit_account_creation.go
@@ -12,7 +12,7 @@ func ParseImplicitAccountCreationAddressFromHexString(hexAddr string) (*Implicit
 		return nil, err
 	}
 
-	if len(addrBytes) < ImplicitAccountCreationAddressBytesLength {
+	if len(addrBytes) != ImplicitAccountCreationAddressBytesLength {
 		return nil, ierrors.New("invalid ImplicitAccountCreationAddress length")
 	}
 
-- 
2.43.0


From 19784be9aef085675483645d0ec8b6e714ed9222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:56 +0000
Subject: [PATCH 29/47] fix: TransactionCapabilitiesBitMaskFromBytes always
 failed

---
 api_common.go | 3 +++
 api_v3.go     | 3 ---
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/api_common.go b/api_common.go
index 00cdd9a..8ac1603 100644
--- a/api_common.go
+++ b/api_common.go
@@ -144,6 +144,9 @@ func CommonSerixAPI() *serix.API {
 		must(api.RegisterTypeSettings(AddressCapabilitiesBitMask{},
 			serix.TypeSettings{}.WithLengthPrefixType(serix.LengthPrefixTypeAsByte).WithMaxLen(2),
 		))
+		must(api.RegisterTypeSettings(TransactionCapabilitiesBitMask{},
+			serix.TypeSettings{}.WithLengthPrefixType(serix.LengthPrefixTypeAsByte).WithMaxLen(1),
+		))
 
 		must(api.RegisterInterfaceObjects((*Address)(nil), (*Ed25519Address)(nil)))
 		must(api.RegisterInterfaceObjects((*Address)(nil), (*AccountAddress)(nil)))
diff --git a/api_v3.go b/api_v3.go
index 0393cae..8afb814 100644
--- a/api_v3.go
+++ b/api_v3.go
@@ -558,9 +558,6 @@ func V3API(protoParams ProtocolParameters) API {
 				WithLengthPrefixType(serix.LengthPrefixTypeAsUint16).
 				WithArrayRules(txEssenceV3AllotmentsArrRules),
 		))
-		must(api.RegisterTypeSettings(TransactionCapabilitiesBitMask{},
-			serix.TypeSettings{}.WithLengthPrefixType(serix.LengthPrefixTypeAsByte).WithMaxLen(1),
-		))
 
 		must(api.RegisterInterfaceObjects((*TxEssenceOutput)(nil), (*BasicOutput)(nil)))
 		must(api.RegisterInterfaceObjects((*TxEssenceOutput)(nil), (*AccountOutput)(nil)))
-- 
2.43.0


From 98d23e0c35440d273725af9a00bda74dcd947801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:31 +0000
Subject: [PATCH 30/47] fix: MaxBlockWork was exceeded by blocks with many
 foundry outputs

---
 workscore.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/workscore.go b/workscore.go
index e800728..c10616b 100644
--- a/workscore.go
+++ b/workscore.go
@@ -107,8 +107,8 @@ func (w WorkScoreParameters) MaxBlockWork() (WorkScore, error) {
 	// outputs factor for max number of outputs
 	addWorkScore(w.Output, MaxOutputsCount)
 
-	// native tokens factor for max number of outputs
-	addWorkScore(w.NativeToken, MaxOutputsCount)
+	// native tokens factor for max number of outputs, each a foundry output with a token scheme and a native token feature
+	addWorkScore(w.NativeToken, MaxOutputsCount*2)
 
 	// staking factor for max number of outputs each with a staking feature
 	addWorkScore(w.Staking, MaxOutputsCount)
-- 
2.43.0


From 42dd4ec984c6c00b484688836f7185c00fd2c9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:49 +0000
Subject: [PATCH 31/47] fix: second referential unlock of an address sharing
 its key with the signed one was not recorded

---
 vm/vm.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vm/vm.go b/vm/vm.go
index 47fa9ac..352da3d 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -255,7 +255,9 @@ func (s *unlockedAddressesSet) ReferentialUnlockDirectlyUnlockable(owner iotago.
 	// for further "ReferentialUnlockDirect" referential unlocks which is correct
 	// because the original one should be used instead.
 	ownerKey := owner.Key()
-	if _, contains := s.UnlockedAddrsByAddrKey[ownerKey]; !contains {
+	if unlockedAddr, contains := s.UnlockedAddrsByAddrKey[ownerKey]; contains {
+		unlockedAddr.ReferencedByInputIndex[inputIndex] = struct{}{}
+	} else {
 		s.UnlockedAddrsByAddrKey[ownerKey] = &UnlockedAddress{
 			Address:                owner,
 			UnlockedAtInputIndex:   inputIndex,
-- 
2.43.0


From e5c16153dc709c9aad62dec75bb0505d08e9017d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:45 +0000
Subject: [PATCH 32/47] fix: EpochBasedProvider kept the API of replaced
 protocol parameters

---
 api_epoch_based_provider.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/api_epoch_based_provider.go b/api_epoch_based_provider.go
index 892ec7f..886c75b 100644
--- a/api_epoch_based_provider.go
+++ b/api_epoch_based_provider.go
@@ -63,8 +63,19 @@ func (e *EpochBasedProvider) AddProtocolParameters(protocolParameters ProtocolPa
 	e.protocolParametersByVersion[protocolParameters.Version()] = protocolParameters
 	delete(e.futureProtocolParametersByVersion, protocolParameters.Version())
 
-	if e.latestAPI == nil || e.latestAPI.Version() < protocolParameters.Version() {
-		e.latestAPI = lo.PanicOnErr(e.apiForVersion(protocolParameters.Version()))
+	isLatest := e.latestAPI == nil || e.latestAPI.Version() <= protocolParameters.Version()
+	isCommitted := e.committedAPI != nil && e.committedAPI.Version() == protocolParameters.Version()
+	if !isLatest && !isCommitted {
+		return
+	}
+
+	// the APIs which are already instantiated for that version must not keep the parameters which are replaced.
+	api := lo.PanicOnErr(e.newAPI(protocolParameters))
+	if isLatest {
+		e.latestAPI = api
+	}
+	if isCommitted {
+		e.committedAPI = api
 	}
 }
 
@@ -102,6 +113,10 @@ func (e *EpochBasedProvider) apiForVersion(version Version) (API, error) {
 		return nil, ierrors.Errorf("protocol parameters for version %d are not set", version)
 	}
 
+	return e.newAPI(protocolParams)
+}
+
+func (e *EpochBasedProvider) newAPI(protocolParams ProtocolParameters) (API, error) {
 	//nolint:gocritic // further version will be added here
 	switch protocolParams.Version() {
 	case 3:
-- 
2.43.0


From 25524972e77df9d1a56b5de71b5f0df0d328ccbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:58 +0000
Subject: [PATCH 33/47] fix: V3ProtocolParameters were read by the encoder
 while their lazily computed hash, bytes and network ID were written

---
 api_v3_protocol_parameters.go | 41 +++++------------------------------
 1 file changed, 6 insertions(+), 35 deletions(-)

diff --git a/api_v3_protocol_parameters.go b/api_v3_protocol_parameters.go
index f36d907..53ae593 100644
--- a/api_v3_protocol_parameters.go
+++ b/api_v3_protocol_parameters.go
@@ -15,19 +15,13 @@ import (
 // V3ProtocolParameters defines the parameters of the protocol.
 type V3ProtocolParameters struct {
 	basicProtocolParameters `serix:""`
-
-	hashIdentifier Identifier
-	hashOnce       sync.Once
-
-	bytes      []byte
-	bytesMutex sync.Mutex
-
-	networkID     NetworkID
-	networkIDOnce sync.Once
 }
 
 var _ ProtocolParameters = &V3ProtocolParameters{}
 
+// protocolParametersSerixAPI is the serix API used to encode the protocol parameters.
+var protocolParametersSerixAPI = sync.OnceValue(CommonSerixAPI)
+
 func (p *V3ProtocolParameters) Version() Version {
 	return p.basicProtocolParameters.Version
 }
@@ -57,11 +51,7 @@ func (p *V3ProtocolParameters) TokenSupply() BaseToken {
 }
 
 func (p *V3ProtocolParameters) NetworkID() NetworkID {
-	p.networkIDOnce.Do(func() {
-		p.networkID = NetworkIDFromString(p.basicProtocolParameters.NetworkName)
-	})
-
-	return p.networkID
+	return NetworkIDFromString(p.basicProtocolParameters.NetworkName)
 }
 
 // GenesisBlockID defines the block ID of the genesis block.
@@ -147,22 +137,7 @@ func (p *V3ProtocolParameters) ChainSwitchingThreshold() uint8 {
 }
 
 func (p *V3ProtocolParameters) Bytes() ([]byte, error) {
-	p.bytesMutex.Lock()
-	defer p.bytesMutex.Unlock()
-
-	// Check if some other goroutine already cached the bytes.
-	if len(p.bytes) > 0 {
-		return p.bytes, nil
-	}
-
-	bytes, err := CommonSerixAPI().Encode(context.TODO(), p)
-	if err != nil {
-		return nil, err
-	}
-
-	p.bytes = bytes
-
-	return p.bytes, nil
+	return protocolParametersSerixAPI().Encode(context.TODO(), p)
 }
 
 func (p *V3ProtocolParameters) Hash() (Identifier, error) {
@@ -171,11 +146,7 @@ func (p *V3ProtocolParameters) Hash() (Identifier, error) {
 		return Identifier{}, err
 	}
 
-	p.hashOnce.Do(func() {
-		p.hashIdentifier = IdentifierFromData(bytes)
-	})
-
-	return p.hashIdentifier, nil
+	return IdentifierFromData(bytes), nil
 }
 
 func (p *V3ProtocolParameters) String() string {
-- 
2.43.0


From c57ff135f85d56777edbf7da5a84bf0a42232441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 34/47] fix: TransactionBuilder did not resolve the IDs of
 newly created chains on the input side

Inputs owned by an account, NFT or anchor whose input still has an empty
ID could not be unlocked, and the mana of such accounts was bound (and
allotted) to the empty account ID.
---
 builder/transaction_builder.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/builder/transaction_builder.go b/builder/transaction_builder.go
index 1584b8e..a17c81a 100644
--- a/builder/transaction_builder.go
+++ b/builder/transaction_builder.go
@@ -610,7 +610,13 @@ func (b *TransactionBuilder) CalculateAvailableManaInputs(targetSlot iotago.Slot
 				return nil, ierrors.Wrap(err, "failed to add input mana")
 			}
 
-			if err := result.AddAccountBoundMana(accountOutput.AccountID, inputTotalMana); err != nil {
+			accountID := accountOutput.AccountID
+			if accountID.Empty() {
+				// the account was created by this output, its ID is derived from the output ID
+				accountID = iotago.AccountIDFromOutputID(inputID)
+			}
+
+			if err := result.AddAccountBoundMana(accountID, inputTotalMana); err != nil {
 				return nil, err
 			}
 		} else {
@@ -716,7 +722,8 @@ func (b *TransactionBuilder) build(signEssence bool) (*iotago.SignedTransaction,
 
 	for inputIndex, inputRef := range b.transaction.TransactionEssence.Inputs {
 		//nolint:forcetypeassert // we can safely assume that this is an UTXOInput
-		owner := b.inputOwner[inputRef.(*iotago.UTXOInput).OutputID()]
+		inputID := inputRef.(*iotago.UTXOInput).OutputID()
+		owner := b.inputOwner[inputID]
 		owner = resolveUnderlyingAddress(owner)
 
 		chainAddr, isChainAddress := owner.(iotago.ChainAddress)
@@ -732,7 +739,7 @@ func (b *TransactionBuilder) build(signEssence bool) (*iotago.SignedTransaction,
 
 			// always mark the chain as unlocked in case the output is a chain output.
 			// e.g. "an NFT owns an NFT".
-			unlockedSet.addChainAsUnlocked(inputs[inputIndex], inputIndex)
+			unlockedSet.addChainAsUnlocked(inputID, inputs[inputIndex], inputIndex)
 
 			// skip the rest of the input processing because we don't need to sign chain inputs
 			continue
@@ -777,7 +784,7 @@ func (b *TransactionBuilder) build(signEssence bool) (*iotago.SignedTransaction,
 
 		// always mark the chain as unlocked in case the output is a chain output
 		// e.g. "an NFT owned by an ed25519 address".
-		unlockedSet.addChainAsUnlocked(inputs[inputIndex], inputIndex)
+		unlockedSet.addChainAsUnlocked(inputID, inputs[inputIndex], inputIndex)
 	}
 
 	sigTxPayload := &iotago.SignedTransaction{
@@ -826,9 +833,17 @@ func (u *txBuilderUnlockedSet) addSignerUID(signerUID iotago.Identifier, unlocke
 // addChainAsUnlocked marks the underlying chain address as unlocked at "unlockedAtIndex".
 // This is only done if the output is a chain output and the chain ID is addressable,
 // which is only valid for AccountOutput, AnchorOutput and NFTOutput.
-func (u *txBuilderUnlockedSet) addChainAsUnlocked(input iotago.Output, unlockedAtIndex int) {
+func (u *txBuilderUnlockedSet) addChainAsUnlocked(inputID iotago.OutputID, input iotago.Output, unlockedAtIndex int) {
 	if chainInput, is := input.(iotago.ChainOutput); is && chainInput.ChainID().Addressable() {
-		u.unlockedChains[chainInput.ChainID().ToAddress().Key()] = unlockedAtIndex
+		chainID := chainInput.ChainID()
+		if chainID.Empty() {
+			// the chain was created by this output, its ID is derived from the output ID
+			if utxoIDChainID, is := chainID.(iotago.UTXOIDChainID); is {
+				chainID = utxoIDChainID.FromOutputID(inputID)
+			}
+		}
+
+		u.unlockedChains[chainID.ToAddress().Key()] = unlockedAtIndex
 	}
 }
 
-- 
2.43.0


From 898440504436abb00ba67853db9c0937fb7dc986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 35/47] fix: TransactionBuilder treated the mana of implicit
 accounts as unbound

An implicit account is a block issuer, so the virtual machine rejects
transactions which move its mana to other accounts or outputs.
---
 builder/transaction_builder.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/builder/transaction_builder.go b/builder/transaction_builder.go
index a17c81a..90b7305 100644
--- a/builder/transaction_builder.go
+++ b/builder/transaction_builder.go
@@ -574,6 +574,27 @@ func (a *AvailableManaResult) AddAccountBoundMana(accountID iotago.AccountID, va
 	return nil
 }
 
+// accountIDOfBoundMana returns the ID of the account which the mana of the input is bound to.
+// This is the case for accounts, including implicit accounts, which are block issuers as well.
+func accountIDOfBoundMana(inputID iotago.OutputID, input iotago.Output) (iotago.AccountID, bool) {
+	switch output := input.(type) {
+	case *iotago.AccountOutput:
+		if output.AccountID.Empty() {
+			// the account was created by this output, its ID is derived from the output ID
+			return iotago.AccountIDFromOutputID(inputID), true
+		}
+
+		return output.AccountID, true
+
+	case *iotago.BasicOutput:
+		if addressUnlock := output.UnlockConditionSet().Address(); addressUnlock != nil && addressUnlock.Address.Type() == iotago.AddressImplicitAccountCreation {
+			return iotago.AccountIDFromOutputID(inputID), true
+		}
+	}
+
+	return iotago.EmptyAccountID, false
+}
+
 // CalculateAvailableManaInputs calculates the available mana on the input side
 // including mana generation and decay and the rewards.
 func (b *TransactionBuilder) CalculateAvailableManaInputs(targetSlot iotago.SlotIndex) (*AvailableManaResult, error) {
@@ -604,18 +625,12 @@ func (b *TransactionBuilder) CalculateAvailableManaInputs(targetSlot iotago.Slot
 			return nil, err
 		}
 
-		if accountOutput, isAccountOutput := input.(*iotago.AccountOutput); isAccountOutput {
+		if accountID, isAccountBound := accountIDOfBoundMana(inputID, input); isAccountBound {
 			inputTotalMana, err := safemath.SafeAdd(inputPotentialMana, inputStoredMana)
 			if err != nil {
 				return nil, ierrors.Wrap(err, "failed to add input mana")
 			}
 
-			accountID := accountOutput.AccountID
-			if accountID.Empty() {
-				// the account was created by this output, its ID is derived from the output ID
-				accountID = iotago.AccountIDFromOutputID(inputID)
-			}
-
 			if err := result.AddAccountBoundMana(accountID, inputTotalMana); err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 74387019423dc60cd0a449759417aabaafb64d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 36/47] fix: AnchorOutputBuilder increased the state index with
 every call of Build

---
 builder/output_builder_anchor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/builder/output_builder_anchor.go b/builder/output_builder_anchor.go
index d875d24..8e10ffb 100644
--- a/builder/output_builder_anchor.go
+++ b/builder/output_builder_anchor.go
@@ -117,7 +117,8 @@ func (builder *AnchorOutputBuilder) Build() (*iotago.AnchorOutput, error) {
 
 	if builder.prev != nil {
 		if builder.stateCtrlReq {
-			builder.output.StateIndex++
+			// derived from the previous output, so that building more than once gives the same output
+			builder.output.StateIndex = builder.prev.StateIndex + 1
 		}
 		if !builder.prev.ImmutableFeatures.Equal(builder.output.ImmutableFeatures) {
 			return nil, ierrors.New("immutable features are not allowed to be changed")
-- 
2.43.0


From a1a317b8ab61e3cd1c48514b82a184ba0fc7ca8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 37/47] fix: the mnemonic of a KeyManager did not restore its
 keys

A KeyManager created from a mnemonic returned a 48 word encoding of its
seed as its mnemonic, which NewKeyManagerFromMnemonic refuses. The mnemonic
of one created from random entropy restored a KeyManager with other keys,
because the entropy was used as the seed directly.
---
 wallet/keymanager.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/wallet/keymanager.go b/wallet/keymanager.go
index 856615c..e9c2ef4 100644
--- a/wallet/keymanager.go
+++ b/wallet/keymanager.go
@@ -24,6 +24,8 @@ const (
 type KeyManager struct {
 	seed []byte
 	path bip32path.Path
+	// the mnemonic the seed was derived from, nil if the key manager was created from a seed.
+	mnemonic bip39.Mnemonic
 }
 
 // NewKeyManagerFromRandom creates a new key manager from random entropy.
@@ -34,7 +36,19 @@ func NewKeyManagerFromRandom(path string) (*KeyManager, error) {
 		return nil, ierrors.Wrap(err, "failed to generate random entropy")
 	}
 
-	return NewKeyManager(random.Seed(), path)
+	// bip39 does not accept the mnemonics of entropy with leading zeros
+	entropy := random.Seed()
+	if entropy[0] == 0 {
+		return NewKeyManagerFromRandom(path)
+	}
+
+	// the seed is derived from the mnemonic, so that the key manager can be restored by its mnemonic
+	mnemonic, err := bip39.EntropyToMnemonic(entropy)
+	if err != nil {
+		return nil, ierrors.Wrap(err, "failed to convert entropy to mnemonic")
+	}
+
+	return NewKeyManagerFromMnemonic(mnemonic.String(), path)
 }
 
 // NewKeyManagerFromMnemonic creates a new key manager from a mnemonic.
@@ -49,7 +63,13 @@ func NewKeyManagerFromMnemonic(mnemonic string, path string) (*KeyManager, error
 		return nil, ierrors.Wrap(err, "failed to convert mnemonic to seed")
 	}
 
-	return NewKeyManager(seed, path)
+	keyManager, err := NewKeyManager(seed, path)
+	if err != nil {
+		return nil, err
+	}
+	keyManager.mnemonic = mnemonicSentence
+
+	return keyManager, nil
 }
 
 // NewKeyManager creates a new key manager.
@@ -100,6 +120,10 @@ func (k *KeyManager) Path(index ...uint32) bip32path.Path {
 
 // Mnemonic returns the mnemonic of the key manager.
 func (k *KeyManager) Mnemonic() bip39.Mnemonic {
+	if k.mnemonic != nil {
+		return lo.CopySlice(k.mnemonic)
+	}
+
 	mnemonic, err := bip39.EntropyToMnemonic(k.seed)
 	if err != nil {
 		panic(ierrors.Wrap(err, "failed to convert seed to mnemonic"))
-- 
2.43.0


From ec022115ebe1840f9971c567ec8f073081e5716b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:44 +0000
Subject: [PATCH 38/47] fix: report the failure reason of an error which is not
 wrapped

DetermineTransactionFailureReason only looked at the errors below the given
one, so an unwrapped ErrExpirationCommitmentInputMissing, as ValidateUnlocks
returns it, became TxFailureSemanticValidationFailed.
---
 api/core.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api/core.go b/api/core.go
index 364111c..c9fe8e8 100644
--- a/api/core.go
+++ b/api/core.go
@@ -445,6 +445,8 @@ func unwrapErrors(err error, errList []error) []error {
 func DetermineTransactionFailureReason(err error) TransactionFailureReason {
 	errorList := make([]error, 0)
 	errorList = unwrapErrors(err, errorList)
+	// The error itself is the least-detailed one.
+	errorList = append(errorList, err)
 
 	// Map the error to the transaction failure reason.
 	// The strategy is to map the first failure reason that exists in order of most-detailed to least-detailed error.
-- 
2.43.0


From d3561c9092389bc14f259255ca4d56b5ac342e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:41 +0000
Subject: [PATCH 39/47] fix: do not panic when printing states which are out of
 range

The binary form of block and transaction states decodes to any byte.
---
 api/core.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/api/core.go b/api/core.go
index c9fe8e8..ee44ffd 100644
--- a/api/core.go
+++ b/api/core.go
@@ -1,6 +1,7 @@
 package api
 
 import (
+	"fmt"
 	"time"
 
 	"github.com/iotaledger/hive.go/ierrors"
@@ -31,6 +32,10 @@ const (
 )
 
 func (b BlockState) String() string {
+	if b > BlockStateOrphaned {
+		return fmt.Sprintf("invalid block state: %d", byte(b))
+	}
+
 	return []string{
 		"unknown",
 		"pending",
@@ -115,6 +120,10 @@ const (
 )
 
 func (t TransactionState) String() string {
+	if t > TransactionStateFailed {
+		return fmt.Sprintf("invalid transaction state: %d", byte(t))
+	}
+
 	return []string{
 		"unknown",
 		"pending",
-- 
2.43.0


From 9137f50a8db4a8e680f21a4da2ce04b1c2358017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:22 +0000
Subject: [PATCH 40/47] fix: do not panic on a node info response without
 status

---
 nodeclient/http_api_client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nodeclient/http_api_client.go b/nodeclient/http_api_client.go
index 262e74d..3bce8a2 100644
--- a/nodeclient/http_api_client.go
+++ b/nodeclient/http_api_client.go
@@ -248,6 +248,10 @@ func (client *Client) Info(ctx context.Context) (*api.InfoResponse, error) {
 		return nil, err
 	}
 
+	if res.Status == nil {
+		return nil, ierrors.New("the node info response contains no status")
+	}
+
 	client.apiProvider.SetCommittedSlot(res.Status.LatestCommitmentID.Slot())
 
 	return res, nil
-- 
2.43.0


From 1e748f4f04fe6d28cd2bd915a9f27362efbcfcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:06 +0000
Subject: [PATCH 41/47] fix: do not panic on a block issuance response without
 commitment

---
 nodeclient/blockissuer_client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nodeclient/blockissuer_client.go b/nodeclient/blockissuer_client.go
index d29def9..e8e3d59 100644
--- a/nodeclient/blockissuer_client.go
+++ b/nodeclient/blockissuer_client.go
@@ -119,6 +119,10 @@ func (client *blockIssuerClient) SendPayloadWithTransactionBuilder(ctx context.C
 		return nil, nil, ierrors.Wrap(err, "failed to get the latest block issuance infos")
 	}
 
+	if blockIssuance.LatestCommitment == nil {
+		return nil, nil, ierrors.New("the latest block issuance infos contain no commitment")
+	}
+
 	// set the commitment slot as the creation slot of the transaction if no slot was set yet.
 	if builder.CreationSlot() == 0 {
 		builder.SetCreationSlot(blockIssuance.LatestCommitment.Slot)
-- 
2.43.0


From f1aa97e581c2ec915dfbda88e749ac5a0d5515c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:15 +0000
Subject: [PATCH 42/47] fix: report subscriptions which the MQTT broker refuses

---
 nodeclient/event_api_client.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/nodeclient/event_api_client.go b/nodeclient/event_api_client.go
index 2cb1a95..fb3efb0 100644
--- a/nodeclient/event_api_client.go
+++ b/nodeclient/event_api_client.go
@@ -21,6 +21,9 @@ var (
 	ErrEventAPIClientInactive = ierrors.New("event api client is inactive")
 )
 
+// the return code of a refused subscription in the SUBACK packet of the broker.
+const mqttSubscriptionRefused = 0x80
+
 func randMQTTClientID() string {
 	return strconv.FormatInt(rand.NewSource(time.Now().UnixNano()).Int63(), 10)
 }
@@ -137,7 +140,7 @@ func (eac *EventAPIClient) Close() {
 func subscribeToTopic[T any](eac *EventAPIClient, topic string, deseriFunc func(payload []byte) (T, error)) (<-chan T, *EventAPIClientSubscription) {
 	panicIfEventAPIClientInactive(eac)
 	channel := make(chan T)
-	if token := eac.MQTTClient.Subscribe(topic, 2, func(_ mqtt.Client, mqttMsg mqtt.Message) {
+	token := eac.MQTTClient.Subscribe(topic, 2, func(_ mqtt.Client, mqttMsg mqtt.Message) {
 		obj, err := deseriFunc(mqttMsg.Payload())
 		if err != nil {
 			sendErrOrDrop(eac.Errors, err)
@@ -150,9 +153,14 @@ func subscribeToTopic[T any](eac *EventAPIClient, topic string, deseriFunc func(
 			return
 		case channel <- obj:
 		}
-	}); token.Wait() && token.Error() != nil {
+	})
+	if token.Wait() && token.Error() != nil {
 		return nil, newSubscriptionWithError(token.Error())
 	}
+	// the broker can refuse a subscription without breaking the connection
+	if subToken, ok := token.(*mqtt.SubscribeToken); ok && subToken.Result()[topic] == mqttSubscriptionRefused {
+		return nil, newSubscriptionWithError(ierrors.Errorf("subscription to topic %s was refused by the broker", topic))
+	}
 
 	return channel, newSubscription(eac.MQTTClient, topic)
 }
-- 
2.43.0


From 1ce7369af18593191be29be0f6267f56ab35dbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 43/47] fix: AddressFromReader overflowed the stack on nested
 addresses

---
 address.go            | 17 +++++++++++++++++
 address_multi.go      |  2 +-
 address_restricted.go |  2 +-
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/address.go b/address.go
index 07941cf..e11608a 100644
--- a/address.go
+++ b/address.go
@@ -293,6 +293,23 @@ func AddressFromBytes(bytes []byte) (Address, int, error) {
 	return addr, n, nil
 }
 
+// nestedAddressFromReader reads an address which is nested inside another one.
+// The disallowed types are rejected before they are read, otherwise the nesting would be unbounded.
+func nestedAddressFromReader(reader io.ReadSeeker, disallowedTypes ...AddressType) (Address, error) {
+	addressType, err := stream.PeekSize(reader, serializer.SeriLengthPrefixTypeAsByte)
+	if err != nil {
+		return nil, ierrors.Wrap(err, "unable to read address type")
+	}
+
+	for _, disallowedType := range disallowedTypes {
+		if AddressType(addressType) == disallowedType {
+			return nil, ierrors.WithMessagef(ErrInvalidNestedAddressType, "address type %d", addressType)
+		}
+	}
+
+	return AddressFromReader(reader)
+}
+
 func AddressFromReader(reader io.ReadSeeker) (Address, error) {
 	addressType, err := stream.PeekSize(reader, serializer.SeriLengthPrefixTypeAsByte)
 	if err != nil {
diff --git a/address_multi.go b/address_multi.go
index deb8ea3..2b67842 100644
--- a/address_multi.go
+++ b/address_multi.go
@@ -154,7 +154,7 @@ func MultiAddressFromReader(reader io.ReadSeeker) (Address, error) {
 
 	var addressesWithWeight AddressesWithWeight
 	if err := stream.ReadCollection(reader, serializer.SeriLengthPrefixTypeAsByte, func(index int) error {
-		address, err := AddressFromReader(reader)
+		address, err := nestedAddressFromReader(reader, AddressImplicitAccountCreation, AddressMulti, AddressRestricted)
 		if err != nil {
 			return ierrors.Wrapf(err, "unable to read address %d", index)
 		}
diff --git a/address_restricted.go b/address_restricted.go
index 99da67d..6db8d0e 100644
--- a/address_restricted.go
+++ b/address_restricted.go
@@ -125,7 +125,7 @@ func RestrictedAddressFromReader(reader io.ReadSeeker) (Address, error) {
 		return nil, ierrors.Wrap(err, "unable to skip address type byte")
 	}
 
-	address, err := AddressFromReader(reader)
+	address, err := nestedAddressFromReader(reader, AddressImplicitAccountCreation, AddressRestricted)
 	if err != nil {
 		return nil, ierrors.Wrap(err, "unable to read restricted address")
 	}
-- 
2.43.0


From eae76e75b3db724909e1edeb2dbeea2186ad4044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:03 +0000
Subject: [PATCH 44/47] fix: sanity checks of new protocol parameters
 overflowed 32 bits

---
 api_v3_protocol_parameters.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/api_v3_protocol_parameters.go b/api_v3_protocol_parameters.go
index 53ae593..9284d1c 100644
--- a/api_v3_protocol_parameters.go
+++ b/api_v3_protocol_parameters.go
@@ -323,7 +323,7 @@ func timeSanityCheck(protocolParams *V3ProtocolParameters) {
 	if protocolParams.LivenessThresholdLowerBoundInSeconds > protocolParams.LivenessThresholdUpperBoundInSeconds {
 		panic("LivenessThresholdLowerBoundInSeconds must be less than or equal to LivenessThresholdUpperBoundInSeconds")
 	}
-	if SlotIndex(protocolParams.LivenessThresholdUpperBoundInSeconds) >= protocolParams.MinCommittableAge()*SlotIndex(protocolParams.SlotDurationInSeconds()) {
+	if uint64(protocolParams.LivenessThresholdUpperBoundInSeconds) >= uint64(protocolParams.MinCommittableAge())*uint64(protocolParams.SlotDurationInSeconds()) {
 		panic("LivenessThresholdUpperBoundInSeconds must be strictly less than MinCommittableAge * SlotDurationInSeconds")
 	}
 	if protocolParams.MinCommittableAge() >= protocolParams.MaxCommittableAge() {
@@ -339,11 +339,13 @@ func timeSanityCheck(protocolParams *V3ProtocolParameters) {
 }
 
 func congestionControlSanityCheck(protocolParams *V3ProtocolParameters) {
-	if protocolParams.CongestionControlParameters().IncreaseThreshold > WorkScore(protocolParams.SlotDurationInSeconds())*protocolParams.CongestionControlParameters().SchedulerRate {
+	// computed with 64 bits, since the work of a slot might exceed 32 bits
+	maxWorkScorePerSlot := uint64(protocolParams.SlotDurationInSeconds()) * uint64(protocolParams.CongestionControlParameters().SchedulerRate)
+	if uint64(protocolParams.CongestionControlParameters().IncreaseThreshold) > maxWorkScorePerSlot {
 		fmt.Printf("IncreaseThreshold: %d, SchedulerRate: %d, SlotDurationSeconds: %d\n", protocolParams.CongestionControlParameters().IncreaseThreshold, protocolParams.CongestionControlParameters().SchedulerRate, protocolParams.SlotDurationInSeconds())
 		panic("IncreaseThreshold must be less than or equal to SchedulerRate*SlotDurationInSeconds")
 	}
-	if protocolParams.CongestionControlParameters().DecreaseThreshold > WorkScore(protocolParams.SlotDurationInSeconds())*protocolParams.CongestionControlParameters().SchedulerRate {
+	if uint64(protocolParams.CongestionControlParameters().DecreaseThreshold) > maxWorkScorePerSlot {
 		panic("DecreaseThreshold must be less than or equal to SchedulerRate*SlotDurationInSeconds")
 	}
 	if protocolParams.CongestionControlParameters().DecreaseThreshold > protocolParams.CongestionControlParameters().IncreaseThreshold {
-- 
2.43.0


From 7e357a542acb5f277248d904d87e2b536c2c737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:15 +0000
Subject: [PATCH 45/47] fix: mana calculations wrapped around instead of
 reporting an overflow

The fixed point multiplication silently dropped the upper bits of results
beyond 64 bits and of products with factors beyond 32 bits, so decayed and
generated mana was wrong for such parameters instead of an error.
---
 mana_decay_provider.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mana_decay_provider.go b/mana_decay_provider.go
index 8b82932..35eb0de 100644
--- a/mana_decay_provider.go
+++ b/mana_decay_provider.go
@@ -1,6 +1,8 @@
 package iotago
 
 import (
+	"math"
+
 	"github.com/iotaledger/hive.go/core/safemath"
 	"github.com/iotaledger/hive.go/ierrors"
 	"github.com/iotaledger/hive.go/lo"
@@ -18,12 +20,16 @@ func mergeUint64(valueHi uint64, valueLo uint64) (value uint64) {
 
 // fixedPointMultiplication32Splitted does a fixed point multiplication using two uint64
 // containing the high and the low double-word of the value.
-// ATTENTION: do not pass factor that use more than 32bits, otherwise this function overflows.
+// It returns an error if the factor uses more than 32bits, or if the result uses more than 64bits.
 func fixedPointMultiplication32Splitted(valueHi uint64, valueLo uint64, factor uint64, scale uint64) (uint64, uint64, error) {
 	if scale > 32 {
 		return 0, 0, ierrors.Errorf("fixed point multiplication with a scaling factor >32 (%d) not allowed", scale)
 	}
 
+	if factor > math.MaxUint32 {
+		return 0, 0, ierrors.Wrapf(safemath.ErrIntegerOverflow, "fixed point multiplication with a factor >32bits (%d) not allowed", factor)
+	}
+
 	// multiply the integer part of the fixed-point number by the factor
 	valueHi *= factor
 
@@ -38,6 +44,10 @@ func fixedPointMultiplication32Splitted(valueHi uint64, valueLo uint64, factor u
 	// the lower 32 bits of valueLo form the new lower part of the result.
 	valueLo &= 0x00000000FFFFFFFF
 
+	if valueHi > math.MaxUint32 {
+		return 0, 0, ierrors.Wrap(safemath.ErrIntegerOverflow, "result of fixed point multiplication exceeds 64bits")
+	}
+
 	// return the result as a fixed-point number composed of two 64-bit integers
 	return valueHi, valueLo, nil
 }
-- 
2.43.0


From ae27b6c49f49c545b649ee649dcae2d328ecf9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:41 +0000
Subject: [PATCH 46/47] fix: attestations with an empty public key were
 verified

---
 attestation.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/attestation.go b/attestation.go
index bf194e5..5708939 100644
--- a/attestation.go
+++ b/attestation.go
@@ -3,6 +3,7 @@ package iotago
 import (
 	"bytes"
 	"context"
+	"crypto/ed25519"
 
 	hiveEd25519 "github.com/iotaledger/hive.go/crypto/ed25519"
 	"github.com/iotaledger/hive.go/ierrors"
@@ -111,6 +112,11 @@ func (a *Attestation) VerifySignature() (valid bool, err error) {
 		return false, ierrors.Errorf("only ed2519 signatures supported, got %s", a.Signature.Type())
 	}
 
+	// signatures of the empty public key can be made by anyone
+	if edSig.PublicKey == [ed25519.PublicKeySize]byte{} {
+		return false, ierrors.New("ed25519 public key must not be empty")
+	}
+
 	return hiveEd25519.Verify(edSig.PublicKey[:], signingMessage, edSig.Signature[:]), nil
 }
 
-- 
2.43.0


From 06d80aa192228599e18dae072b09c025da0e1004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:42 +0000
Subject: [PATCH 47/47] fix: failure reason of errors which are not comparable
 panicked

---
 api/core.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/api/core.go b/api/core.go
index ee44ffd..fe73c45 100644
--- a/api/core.go
+++ b/api/core.go
@@ -2,6 +2,7 @@ package api
 
 import (
 	"fmt"
+	"reflect"
 	"time"
 
 	"github.com/iotaledger/hive.go/ierrors"
@@ -460,6 +461,11 @@ func DetermineTransactionFailureReason(err error) TransactionFailureReason {
 	// Map the error to the transaction failure reason.
 	// The strategy is to map the first failure reason that exists in order of most-detailed to least-detailed error.
 	for _, err := range errorList {
+		// errors which can't be compared are not in the map, and must not be used as its key.
+		if !reflect.ValueOf(err).Comparable() {
+			continue
+		}
+
 		if txFailureReason, matches := txErrorsFailureReasonMap[err]; matches {
 			return txFailureReason
 		}
-- 
2.43.0

