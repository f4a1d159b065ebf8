From 9db7931e88c74fdcda57274ee07abf22b9f7868c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:27 +0000
Subject: [PATCH 01/46] fix: assets-ext: imbalances built from zero() adopt the
 asset id merged into them

An imbalance made with Imbalance::zero() has no asset id; merge, subsume and
offset kept that placeholder id, so dropping the result corrected the issuance
of asset 0 and left the real asset's issuance wrong.
---
 pallet/assets-ext/src/imbalances.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pallet/assets-ext/src/imbalances.rs b/pallet/assets-ext/src/imbalances.rs
index 66fc93a..b370d8c 100644
--- a/pallet/assets-ext/src/imbalances.rs
+++ b/pallet/assets-ext/src/imbalances.rs
@@ -124,18 +124,21 @@ impl<T: Config> Imbalance<Balance> for PositiveImbalance<T> {
 		(Self::new(first, asset_id), Self::new(second, asset_id))
 	}
 	fn merge(mut self, other: Self) -> Self {
-		self.amount = self.amount.saturating_add(other.amount);
-		mem::forget(other);
+		self.subsume(other);
 
 		self
 	}
 	fn subsume(&mut self, other: Self) {
+		// `zero()` carries no asset id, take it from the imbalance merged into it
+		if self.asset_id.is_zero() {
+			self.asset_id = other.asset_id;
+		}
 		self.amount = self.amount.saturating_add(other.amount);
 		mem::forget(other);
 	}
 	fn offset(self, other: Self::Opposite) -> SameOrOther<Self, Self::Opposite> {
 		let (a, b) = (self.amount, other.amount);
-		let asset_id = self.asset_id;
+		let asset_id = if self.asset_id.is_zero() { other.asset_id } else { self.asset_id };
 		mem::forget((self, other));
 
 		if a >= b {
@@ -177,18 +180,21 @@ impl<T: Config> Imbalance<Balance> for NegativeImbalance<T> {
 		(Self::new(first, asset_id), Self::new(second, asset_id))
 	}
 	fn merge(mut self, other: Self) -> Self {
-		self.amount = self.amount.saturating_add(other.amount);
-		mem::forget(other);
+		self.subsume(other);
 
 		self
 	}
 	fn subsume(&mut self, other: Self) {
+		// `zero()` carries no asset id, take it from the imbalance merged into it
+		if self.asset_id.is_zero() {
+			self.asset_id = other.asset_id;
+		}
 		self.amount = self.amount.saturating_add(other.amount);
 		mem::forget(other);
 	}
 	fn offset(self, other: Self::Opposite) -> SameOrOther<Self, Self::Opposite> {
 		let (a, b) = (self.amount, other.amount);
-		let asset_id = self.asset_id;
+		let asset_id = if self.asset_id.is_zero() { other.asset_id } else { self.asset_id };
 		mem::forget((self, other));
 
 		if a >= b {
-- 
2.43.0


From e3bfa19306463cc8ee3eeca552af8e41602e81a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:35 +0000
Subject: [PATCH 02/46] fix: dex: forget the last invariant of a pool which
 changes while FeeTo is unset

LiquidityPoolLastK was only ever written, so once FeeTo was unset and set again
the next swap minted a network fee for all the growth (liquidity deposits
included) in between, diluting the liquidity providers.
---
 pallet/dex/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pallet/dex/src/lib.rs b/pallet/dex/src/lib.rs
index e8a9c10..2c6ff00 100644
--- a/pallet/dex/src/lib.rs
+++ b/pallet/dex/src/lib.rs
@@ -736,6 +736,9 @@ where
 				*k = U256::from(reserve_a).mul(U256::from(reserve_b))?;
 				Ok(())
 			});
+		} else {
+			// no network fee is due for growth which happens while FeeTo is unset
+			LiquidityPoolLastK::<T>::remove(lp_share_asset_id);
 		}
 
 		if is_swapped {
@@ -857,6 +860,9 @@ where
 				*k = U256::from(reserve_a).mul(U256::from(reserve_b))?;
 				Ok(())
 			});
+		} else {
+			// no network fee is due for growth which happens while FeeTo is unset
+			LiquidityPoolLastK::<T>::remove(lp_share_asset_id);
 		}
 
 		if is_swapped {
@@ -1175,6 +1181,9 @@ where
 						},
 					);
 				}
+			} else if let Some(lp_share_asset_id) = TradingPairLPToken::<T>::get(trading_pair) {
+				// no network fee is due for growth which happens while FeeTo is unset
+				LiquidityPoolLastK::<T>::remove(lp_share_asset_id);
 			}
 
 			res.push((amount_0_in, amount_1_in, amount_0_out, amount_1_out));
-- 
2.43.0


From 0b572cb8017d4e2a8d549afd289aa619ac671c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:31 +0000
Subject: [PATCH 03/46] fix: nft: a serial number listed twice in a transfer is
 moved once

---
 pallet/nft/src/impls.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pallet/nft/src/impls.rs b/pallet/nft/src/impls.rs
index fbdbd69..81f5601 100644
--- a/pallet/nft/src/impls.rs
+++ b/pallet/nft/src/impls.rs
@@ -34,7 +34,7 @@ use seed_primitives::{CrossChainCompatibility, MAX_COLLECTION_ENTITLEMENTS};
 use sp_runtime::{
 	traits::Zero, ArithmeticError, BoundedVec, DispatchError, DispatchResult, SaturatedConversion,
 };
-use sp_std::vec;
+use sp_std::{collections::btree_set::BTreeSet, vec};
 
 impl<T: Config> Pallet<T> {
 	/// Returns the CollectionUuid unique across parachains
@@ -93,6 +93,11 @@ impl<T: Config> Pallet<T> {
 			Error::<T>::TransferUtilityBlocked
 		);
 
+		// A serial number listed more than once must only be moved once
+		let mut serial_numbers = serial_numbers;
+		let mut seen = BTreeSet::new();
+		serial_numbers.retain(|serial_number| seen.insert(*serial_number));
+
 		CollectionInfo::<T>::try_mutate(collection_id, |maybe_collection_info| -> DispatchResult {
 			let collection_info =
 				maybe_collection_info.as_mut().ok_or(Error::<T>::NoCollectionFound)?;
-- 
2.43.0


From 5d0191b879892fbb7791d9a6a3cfdde815a25492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:25 +0000
Subject: [PATCH 04/46] fix: marketplace: accepting an offer unlocks the rest
 of the listing and leaves auctions alone

---
 pallet/marketplace/src/impls.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pallet/marketplace/src/impls.rs b/pallet/marketplace/src/impls.rs
index 84c49b5..e47cd66 100644
--- a/pallet/marketplace/src/impls.rs
+++ b/pallet/marketplace/src/impls.rs
@@ -373,14 +373,18 @@ impl<T: Config> Pallet<T> {
 		if let Some(TokenLockReason::Listed(listing_id)) = T::NFTExt::get_token_lock(offer.token_id)
 		{
 			if let Some(listing) = <Listings<T>>::get(listing_id) {
-				if let Listing::<T>::FixedPrice(sale) = listing.clone() {
-					Self::deposit_event(Event::<T>::FixedPriceSaleClose {
-						tokens: sale.tokens,
-						listing_id,
-						marketplace_id: sale.marketplace_id,
-						reason: FixedPriceClosureReason::OfferAccepted,
-					});
-				}
+				let Listing::<T>::FixedPrice(sale) = listing.clone() else {
+					// the auction must run its course, its bids are still on hold
+					return Err(Error::<T>::TokenOnAuction.into());
+				};
+				// The listing may hold further tokens which are no longer for sale
+				sale.tokens.unlock_tokens(&sale.seller)?;
+				Self::deposit_event(Event::<T>::FixedPriceSaleClose {
+					tokens: sale.tokens,
+					listing_id,
+					marketplace_id: sale.marketplace_id,
+					reason: FixedPriceClosureReason::OfferAccepted,
+				});
 
 				Self::remove_listing(listing, listing_id);
 			}
-- 
2.43.0


From 0829d014caef02178b3ba56e182d0417e92e20b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:42 +0000
Subject: [PATCH 05/46] fix: marketplace: royalties that round up never exceed
 the price

---
 pallet/marketplace/src/impls.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallet/marketplace/src/impls.rs b/pallet/marketplace/src/impls.rs
index e47cd66..e249152 100644
--- a/pallet/marketplace/src/impls.rs
+++ b/pallet/marketplace/src/impls.rs
@@ -573,7 +573,8 @@ impl<T: Config> Pallet<T> {
 		if !royalties_schedule.calculate_total_entitlement().is_zero() {
 			let entitlements = royalties_schedule.entitlements.clone();
 			for (who, entitlement) in entitlements.into_iter() {
-				let royalty: Balance = entitlement * amount;
+				// royalties which round up must not exceed what is left of the amount
+				let royalty: Balance = (entitlement * amount).min(for_seller);
 				for_seller -= royalty;
 				payouts.push((who, royalty));
 			}
-- 
2.43.0


From 45f619e76516f16736e2feb93e76c0195633c7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:38 +0000
Subject: [PATCH 06/46] fix: marketplace: tokens of an auction that cannot be
 settled are unlocked

---
 pallet/marketplace/src/impls.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pallet/marketplace/src/impls.rs b/pallet/marketplace/src/impls.rs
index e249152..ddbb38b 100644
--- a/pallet/marketplace/src/impls.rs
+++ b/pallet/marketplace/src/impls.rs
@@ -518,6 +518,8 @@ impl<T: Config> Pallet<T> {
 				// This shouldn't happen
 				log!(error, "🃏 releasing hold failed");
 			}
+			// the tokens go back to the seller, who must be able to use them again
+			let _ = listing.tokens.unlock_tokens(&listing.seller);
 
 			// listing metadata is removed by now.
 			Self::deposit_event(Event::<T>::AuctionClose {
-- 
2.43.0


From aeb34e8527f2897bed3ab3a2c5898d4bb51045d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:56 +0000
Subject: [PATCH 07/46] fix: assets-ext: holds of zero are not recorded

---
 pallet/assets-ext/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pallet/assets-ext/src/lib.rs b/pallet/assets-ext/src/lib.rs
index 3fe722d..21b1427 100644
--- a/pallet/assets-ext/src/lib.rs
+++ b/pallet/assets-ext/src/lib.rs
@@ -559,6 +559,10 @@ impl<T: Config> Hold for Pallet<T> {
 		asset_id: AssetId,
 		amount: Balance,
 	) -> DispatchResult {
+		// holds of nothing are not recorded, a second one could not be told apart from the first
+		if amount.is_zero() {
+			return Ok(());
+		}
 		let mut holds = Holds::<T>::get(asset_id, who);
 		match holds.binary_search_by_key(&pallet_id.0, |(p, _)| *p) {
 			Ok(index) => {
@@ -600,6 +604,9 @@ impl<T: Config> Hold for Pallet<T> {
 		asset_id: AssetId,
 		amount: Balance,
 	) -> DispatchResult {
+		if amount.is_zero() {
+			return Ok(());
+		}
 		let mut holds = Holds::<T>::get(asset_id, who);
 		if let Ok(index) = holds.binary_search_by_key(&pallet_id.0, |(p, _)| *p) {
 			let (_, existing_hold) = holds[index];
@@ -646,6 +653,9 @@ impl<T: Config> Hold for Pallet<T> {
 		spends: &[(Self::AccountId, Balance)],
 	) -> DispatchResult {
 		let total_spend = spends.iter().map(|x| x.1).sum::<Balance>();
+		if total_spend.is_zero() {
+			return Ok(());
+		}
 		let mut holds = Holds::<T>::get(asset_id, who);
 		if let Ok(index) = holds.binary_search_by_key(&pallet_id.0, |(p, _)| *p) {
 			let (_, existing_hold) = holds[index];
-- 
2.43.0


From 45cc3dc514622d260c06802fdaa274da69d90cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:46 +0000
Subject: [PATCH 08/46] fix: ethy: resolve claims and calls that hold votes of
 a larger, previous notary set

The number of votes removed was capped by the size of the current notary set, so that once the set
shrank the deciding vote failed with Internal and the claim could never be resolved.
---
 pallet/ethy/src/impls.rs | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/pallet/ethy/src/impls.rs b/pallet/ethy/src/impls.rs
index 872cc10..63eca53 100644
--- a/pallet/ethy/src/impls.rs
+++ b/pallet/ethy/src/impls.rs
@@ -614,12 +614,9 @@ impl<T: Config> Pallet<T> {
 	/// repay challenger bond to challenger
 	/// Remove the active relayer
 	pub(crate) fn handle_invalid_claim(event_claim_id: EventClaimId) -> DispatchResult {
-		if let Some(cursor) = <EventNotarizations<T>>::clear_prefix(
-			event_claim_id,
-			NotaryKeys::<T>::decode_len().unwrap_or(1_000) as u32,
-			None,
-		)
-		.maybe_cursor
+		// the votes may have been cast by a previous, larger, notary set
+		if let Some(cursor) =
+			<EventNotarizations<T>>::clear_prefix(event_claim_id, u32::MAX, None).maybe_cursor
 		{
 			log!(error, "💎 cleaning storage entries failed: {:?}", cursor);
 			return Err(Error::<T>::Internal.into());
@@ -674,12 +671,9 @@ impl<T: Config> Pallet<T> {
 	/// Pay challenger bond to relayer
 	pub(crate) fn handle_valid_claim(event_claim_id: EventClaimId) -> DispatchResult {
 		// no need to track info on this claim any more since it's approved
-		if let Some(cursor) = <EventNotarizations<T>>::clear_prefix(
-			event_claim_id,
-			NotaryKeys::<T>::decode_len().unwrap_or(1_000) as u32,
-			None,
-		)
-		.maybe_cursor
+		// the votes may have been cast by a previous, larger, notary set
+		if let Some(cursor) =
+			<EventNotarizations<T>>::clear_prefix(event_claim_id, u32::MAX, None).maybe_cursor
 		{
 			log!(error, "💎 cleaning storage entries failed: {:?}", cursor);
 			return Err(Error::<T>::Internal.into());
@@ -762,12 +756,9 @@ impl<T: Config> Pallet<T> {
 				},
 				_ => T::EthCallSubscribers::on_eth_call_failed(call_id, EthCallFailure::Internal),
 			}
-			if let Some(cursor) = <EthCallNotarizations<T>>::clear_prefix(
-				call_id,
-				NotaryKeys::<T>::decode_len().unwrap_or(1_000) as u32,
-				None,
-			)
-			.maybe_cursor
+			// the votes may have been cast by a previous, larger, notary set
+			if let Some(cursor) =
+				<EthCallNotarizations<T>>::clear_prefix(call_id, u32::MAX, None).maybe_cursor
 			{
 				log!(error, "💎 cleaning storage entries failed: {:?}", cursor);
 				return Err(Error::<T>::Internal.into());
-- 
2.43.0


From 6240de584efd16228d44daebc9253b0700ad2efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:12 +0000
Subject: [PATCH 09/46] fix: ethy: do not process an event id on the schedule
 of a claim proven invalid

A rejected claim stays in MessagesValidAt. At that block its event id was marked as processed (the
genuine event could never be claimed again), or a new claim for it was processed there, before its own
challenge period had ended.
---
 pallet/ethy/src/impls.rs | 8 ++++++++
 pallet/ethy/src/lib.rs   | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/pallet/ethy/src/impls.rs b/pallet/ethy/src/impls.rs
index 63eca53..ec92b9f 100644
--- a/pallet/ethy/src/impls.rs
+++ b/pallet/ethy/src/impls.rs
@@ -189,6 +189,14 @@ impl<T: Config> Pallet<T> {
 	) -> DispatchResult {
 		ensure!(!PendingEventClaims::<T>::contains_key(event_id), Error::<T>::EventReplayPending);
 
+		// An earlier claim for this event that was proven invalid is still scheduled. Unschedule it, so
+		// that this claim is not processed before its own challenge period has ended
+		let stale = MessagesValidAt::<T>::iter()
+			.find_map(|(at, event_ids)| event_ids.contains(&event_id).then_some(at));
+		if let Some(at) = stale {
+			MessagesValidAt::<T>::mutate(at, |event_ids| event_ids.retain(|id| *id != event_id));
+		}
+
 		let process_at: BlockNumberFor<T> =
 			<frame_system::Pallet<T>>::block_number() + ChallengePeriod::<T>::get();
 		MessagesValidAt::<T>::try_mutate(process_at, |v| -> DispatchResult {
diff --git a/pallet/ethy/src/lib.rs b/pallet/ethy/src/lib.rs
index 0090c73..41ad374 100644
--- a/pallet/ethy/src/lib.rs
+++ b/pallet/ethy/src/lib.rs
@@ -588,6 +588,10 @@ pub mod pallet {
 							});
 						},
 					}
+				} else {
+					// The claim was proven invalid. The event has not been processed, it can still be
+					// claimed with its genuine data
+					continue;
 				}
 
 				let first_processed = processed_message_ids.first().cloned().unwrap_or_default();
-- 
2.43.0


From 49f8cfb7c76e7cbaf7db9f1cb4e0f8da801de67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:12 +0000
Subject: [PATCH 10/46] fix: ethy: resolve a challenge proven valid while no
 relayer is set

The votes and the challenge were cleared but the claim stayed Challenged, was pushed out for ever and
the challenger bond stayed on hold without any way to release it.
---
 pallet/ethy/src/impls.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/pallet/ethy/src/impls.rs b/pallet/ethy/src/impls.rs
index ec92b9f..8896d5d 100644
--- a/pallet/ethy/src/impls.rs
+++ b/pallet/ethy/src/impls.rs
@@ -695,10 +695,8 @@ impl<T: Config> Pallet<T> {
 		});
 
 		if PendingEventClaims::<T>::contains_key(event_claim_id) {
-			if let Some(relayer) = Relayer::<T>::get() {
-				if let Some((challenger, bond_amount)) =
-					<ChallengerAccount<T>>::take(event_claim_id)
-				{
+			if let Some((challenger, bond_amount)) = <ChallengerAccount<T>>::take(event_claim_id) {
+				if let Some(relayer) = Relayer::<T>::get() {
 					// Challenger is incorrect, the event is valid. Send funds to relayer
 					T::MultiCurrency::spend_hold(
 						T::BridgePalletId::get(),
@@ -707,15 +705,22 @@ impl<T: Config> Pallet<T> {
 						&[(relayer, bond_amount)],
 					)?;
 				} else {
-					// This shouldn't happen
-					log!(error, "💎 unexpected missing challenger account");
+					// There is no relayer to reward, return the challenger bond
+					log!(error, "💎 No relayer set");
+					T::MultiCurrency::release_hold(
+						T::BridgePalletId::get(),
+						&challenger,
+						T::NativeAssetId::get(),
+						bond_amount,
+					)?;
 				}
-
-				PendingClaimStatus::<T>::insert(event_claim_id, EventClaimStatus::ProvenValid);
-				Self::deposit_event(Event::<T>::Verified { event_claim_id });
 			} else {
-				log!(error, "💎 No relayer set");
+				// This shouldn't happen
+				log!(error, "💎 unexpected missing challenger account");
 			}
+
+			PendingClaimStatus::<T>::insert(event_claim_id, EventClaimStatus::ProvenValid);
+			Self::deposit_event(Event::<T>::Verified { event_claim_id });
 		} else {
 			log!(error, "💎 unexpected empty claim");
 			return Err(Error::<T>::InvalidClaim.into());
-- 
2.43.0


From 315e6982c0b8b5a675d4b19595d924974c9ac7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:52 +0000
Subject: [PATCH 11/46] fix: nft-peg: reject bridge messages shorter than the
 prefix instead of panicking

The message comes from outside the chain and is routed in on_initialize, where a panic stops the chain.
---
 pallet/nft-peg/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallet/nft-peg/src/lib.rs b/pallet/nft-peg/src/lib.rs
index 211878c..ac4f4dc 100644
--- a/pallet/nft-peg/src/lib.rs
+++ b/pallet/nft-peg/src/lib.rs
@@ -497,7 +497,8 @@ where
 		let weight = Weight::zero();
 
 		// Decode prefix from first 32 bytes of data
-		let prefix_decoded = match ethabi::decode(&[ParamType::Uint(32)], &data[..32]) {
+		let prefix = data.get(..32).ok_or((weight, Error::<T>::InvalidAbiPrefix.into()))?;
+		let prefix_decoded = match ethabi::decode(&[ParamType::Uint(32)], prefix) {
 			Ok(abi) => abi,
 			Err(_) => return Err((weight, Error::<T>::InvalidAbiPrefix.into())),
 		};
-- 
2.43.0


From 1407b22e46f67f2e198bca38147c3e3e4eccc8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:52 +0000
Subject: [PATCH 12/46] fix: nft-peg: handle every collection of a deposit when
 one of them cannot be minted

The deposit stopped at the first collection that failed to mint: that one could be reclaimed, but the
tokens of all following collections were neither minted nor blocked and so were lost.
---
 pallet/nft-peg/src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pallet/nft-peg/src/lib.rs b/pallet/nft-peg/src/lib.rs
index ac4f4dc..3dd418a 100644
--- a/pallet/nft-peg/src/lib.rs
+++ b/pallet/nft-peg/src/lib.rs
@@ -292,6 +292,7 @@ where
 
 		let destination: T::AccountId = destination.into();
 		let name = BoundedVec::truncate_from(b"bridged-collection".to_vec());
+		let mut first_error: Option<DispatchError> = None;
 
 		for current_token in token_info.tokens.iter() {
 			// Assign collection owner to pallet. User can claim it later
@@ -371,12 +372,15 @@ where
 						blocked_mint_id,
 						collection_id,
 						serial_numbers,
-						destination_address: destination,
+						destination_address: destination.clone(),
 					});
 
 					weight = weight.saturating_add(T::DbWeight::get().reads_writes(1, 2));
 
-					return Err((weight, err));
+					// The remaining collections of this deposit are locked on Ethereum too, they
+					// still have to be minted (or blocked)
+					first_error.get_or_insert(err);
+					continue;
 				},
 			}
 
@@ -389,6 +393,10 @@ where
 			weight = weight.saturating_add(T::DbWeight::get().writes(2));
 		}
 
+		if let Some(err) = first_error {
+			return Err((weight, err));
+		}
+
 		Self::deposit_event(Event::<T>::Erc721Deposit { destination });
 		Ok(weight)
 	}
-- 
2.43.0


From fcf47b11cf3bd3b18008312a4086e6dbf187783d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:52 +0000
Subject: [PATCH 13/46] fix: erc20-peg: a payment delay of 0 blocks no longer
 strands the payment

The payment was scheduled for the current block, whose schedule is only picked up in on_initialize.
---
 pallet/erc20-peg/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pallet/erc20-peg/src/lib.rs b/pallet/erc20-peg/src/lib.rs
index 81275bd..593da90 100644
--- a/pallet/erc20-peg/src/lib.rs
+++ b/pallet/erc20-peg/src/lib.rs
@@ -676,7 +676,10 @@ impl<T: Config> Pallet<T> {
 			Self::deposit_event(Event::<T>::NoAvailableDelayedPaymentIds);
 			return;
 		}
-		let payment_block = <frame_system::Pallet<T>>::block_number().saturating_add(delay);
+		// The payments of the current block have already been marked as ready, the next block is the
+		// earliest one possible
+		let payment_block =
+			<frame_system::Pallet<T>>::block_number().saturating_add(delay.max(One::one()));
 		DelayedPayments::<T>::insert(payment_id, &pending_payment);
 		NextDelayedPaymentId::<T>::put(payment_id + 1);
 		DelayedPaymentSchedule::<T>::mutate(payment_block, |v| {
-- 
2.43.0


From 37886370a40889d2f9fd3c14139a363f756a0e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 14/46] fix: xls20: do not truncate the mint fee to 32 bits

The fee per token is a Balance: a fee of 2^32 drops or more was charged modulo 2^32, and a product
above 2^32 was capped.
---
 pallet/xls20/src/lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pallet/xls20/src/lib.rs b/pallet/xls20/src/lib.rs
index a672457..64da3dd 100644
--- a/pallet/xls20/src/lib.rs
+++ b/pallet/xls20/src/lib.rs
@@ -36,7 +36,7 @@ use seed_primitives::{
 };
 use sp_runtime::{
 	traits::{AccountIdConversion, Zero},
-	DispatchResult, SaturatedConversion,
+	DispatchResult,
 };
 use sp_std::prelude::*;
 
@@ -304,8 +304,7 @@ impl<T: Config> Pallet<T> {
 		}
 		if let Some(relayer) = Relayer::<T>::get() {
 			// Fee is per token minted
-			let nft_count: u32 = token_count.saturated_into();
-			let mint_fee: Balance = nft_count.saturating_mul(xls20_mint_fee as u32).into();
+			let mint_fee: Balance = xls20_mint_fee.saturating_mul(token_count.into());
 			// Make the payment
 			T::MultiCurrency::transfer(
 				T::Xls20PaymentAsset::get(),
-- 
2.43.0


From 8b3aa9da034c1e667826b25a646efa7bc2244f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 15/46] fix: xrpl-bridge: do not panic in on_initialize when a
 ledger has too many settled transactions

XRPTransactionLimit bounds the transactions of one block, but those of one ledger can be submitted
over several blocks, and a panic in on_initialize stops the chain.
---
 pallet/xrpl-bridge/src/lib.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pallet/xrpl-bridge/src/lib.rs b/pallet/xrpl-bridge/src/lib.rs
index 2e2c0dd..0297fb3 100644
--- a/pallet/xrpl-bridge/src/lib.rs
+++ b/pallet/xrpl-bridge/src/lib.rs
@@ -935,10 +935,17 @@ impl<T: Config> Pallet<T> {
 
 			// Add to SettledXRPTransactionDetails
 			used_weight = used_weight.saturating_add(DbWeight::get().reads_writes(1, 1));
-			<SettledXRPTransactionDetails<T>>::try_append(ledger_index as u32, *transaction_hash)
-				.expect(
-					"Should not happen since XRPLTransactionLimitPerLedger >= XRPTransactionLimit",
-				);
+			// Transactions of one ledger can be processed over several blocks, so this list can be full
+			// despite XRPLTransactionLimitPerLedger >= XRPTransactionLimit. The transaction details are
+			// then kept instead of being pruned, which still prevents replays
+			if <SettledXRPTransactionDetails<T>>::try_append(
+				ledger_index as u32,
+				*transaction_hash,
+			)
+			.is_err()
+			{
+				log::error!("XRPL-bridge: too many settled transactions for ledger {:?}", ledger_index);
+			}
 
 			// Update HighestSettledLedgerIndex
 			if highest_settled_ledger_index < ledger_index as u32 {
-- 
2.43.0


From 9c3a729d9c9592bf93430e2bf7063c905353791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 16/46] fix: xrpl-bridge: never hand out a door ticket twice

A next allocation starting inside the current bucket is accepted, and once the current bucket was used
up the tickets from that start on were issued a second time. XRPL accepts each ticket once, so those
withdrawals, already burnt here, could never be submitted.
---
 pallet/xrpl-bridge/src/lib.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pallet/xrpl-bridge/src/lib.rs b/pallet/xrpl-bridge/src/lib.rs
index 0297fb3..4bab484 100644
--- a/pallet/xrpl-bridge/src/lib.rs
+++ b/pallet/xrpl-bridge/src/lib.rs
@@ -1718,7 +1718,9 @@ impl<T: Config> Pallet<T> {
 		// TicketSequenceThresholdReached
 		if ticket_params.bucket_size != 0
 			&& Percent::from_rational(
-				current_sequence - ticket_params.start_sequence + 1,
+				current_sequence
+					.saturating_sub(ticket_params.start_sequence)
+					.saturating_add(One::one()),
 				ticket_params.bucket_size,
 			) >= T::TicketSequenceThreshold::get()
 			&& !TicketSequenceThresholdReachedEmitted::<T>::get(door_account)
@@ -1745,8 +1747,18 @@ impl<T: Config> Pallet<T> {
 				return Err(Error::<T>::NextTicketSequenceParamsNotSet.into());
 			} else {
 				// update next to current and clear next
+				// the next bucket may have been allocated while the current one was still in use,
+				// never hand out a ticket twice
+				let next_last_sequence = next_ticket_params
+					.start_sequence
+					.checked_add(next_ticket_params.bucket_size)
+					.ok_or(ArithmeticError::Overflow)?;
+				ensure!(
+					current_sequence < next_last_sequence,
+					Error::<T>::NextTicketSequenceParamsNotSet
+				);
 				DoorTicketSequenceParams::<T>::set(door_account, next_ticket_params.clone());
-				current_sequence = next_ticket_params.start_sequence;
+				current_sequence = current_sequence.max(next_ticket_params.start_sequence);
 				next_sequence =
 					current_sequence.checked_add(One::one()).ok_or(ArithmeticError::Overflow)?;
 
-- 
2.43.0


From 913b24037947ac03ed51e395d5cd3207c68d7eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:57 +0000
Subject: [PATCH 17/46] fix: ethy: never report an eth_call result without
 consensus as complete

---
 pallet/ethy/src/impls.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallet/ethy/src/impls.rs b/pallet/ethy/src/impls.rs
index 8896d5d..00dfb3b 100644
--- a/pallet/ethy/src/impls.rs
+++ b/pallet/ethy/src/impls.rs
@@ -808,7 +808,8 @@ impl<T: Config> Pallet<T> {
 		});
 		// cannot or will not reach consensus based on current notarizations
 		if total_count == notary_count || !can_reach_consensus {
-			return do_callback_and_clean_up(result);
+			// whatever this notary reported, it is not a result the notaries agree on
+			return do_callback_and_clean_up(CheckedEthCallResult::DataProviderErr);
 		}
 
 		// update counts
-- 
2.43.0


From 081ba98aef23b6faeb7650439a99f13a0afcfe94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 18/46] fix: ethy: confirm a claimed event that is not the
 first bridge event of its transaction

---
 pallet/ethy/src/impls.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pallet/ethy/src/impls.rs b/pallet/ethy/src/impls.rs
index 00dfb3b..eddb6d8 100644
--- a/pallet/ethy/src/impls.rs
+++ b/pallet/ethy/src/impls.rs
@@ -358,17 +358,24 @@ impl<T: Config> Pallet<T> {
 		}
 
 		// search for a bridge deposit event in this tx receipt
-		let matching_log = tx_receipt.logs.iter().find(|log| {
-			log.transaction_hash == Some(tx_hash)
-				&& log.topics.contains(&SUBMIT_BRIDGE_EVENT_SELECTOR.into())
-		});
-
 		let submitted_event_data = ethabi::encode(&[
 			Token::Uint(event_claim_id.into()),
 			Token::Address(source),
 			Token::Address(destination),
 			Token::Bytes(data.into_inner()),
 		]);
+		let bridge_logs = || {
+			tx_receipt.logs.iter().filter(|log| {
+				log.transaction_hash == Some(tx_hash)
+					&& log.topics.contains(&SUBMIT_BRIDGE_EVENT_SELECTOR.into())
+			})
+		};
+		// one tx may emit several bridge events, look for the one that was claimed
+		let matching_log = bridge_logs()
+			.find(|log| {
+				log.data == submitted_event_data && log.address == ContractAddress::<T>::get()
+			})
+			.or_else(|| bridge_logs().next());
 		if let Some(log) = matching_log {
 			// check if the Ethereum event data matches what was reported
 			// in the original claim
-- 
2.43.0


From e5c0afa28f8bd1fdf1b01aa0b4364d795d61a741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 19/46] fix: close crowdsales that are enabled with a zero
 duration

---
 pallet/crowdsale/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pallet/crowdsale/src/lib.rs b/pallet/crowdsale/src/lib.rs
index 38e44c1..6621479 100644
--- a/pallet/crowdsale/src/lib.rs
+++ b/pallet/crowdsale/src/lib.rs
@@ -30,7 +30,7 @@ use frame_support::{
 	dispatch::{Dispatchable, GetDispatchInfo},
 	pallet_prelude::*,
 	sp_runtime::{
-		traits::{AccountIdConversion, Zero},
+		traits::{AccountIdConversion, One, Zero},
 		SaturatedConversion, Saturating,
 	},
 	traits::{
@@ -457,7 +457,9 @@ pub mod pallet {
 
 				// ensure start block is met and end block is not met
 				let current_block = <frame_system::Pallet<T>>::block_number();
-				let end_block = sale_info.duration.saturating_add(current_block);
+				// Sales ending this block have already been closed in on_initialize, the earliest
+				// block a sale can end at is the next one
+				let end_block = sale_info.duration.max(One::one()).saturating_add(current_block);
 
 				// Append end block to SaleEndBlocks
 				SaleEndBlocks::<T>::try_mutate(end_block, |sales| -> DispatchResult {
-- 
2.43.0


From 4b134400c600f436284ca9d4e544c5d11ca8a9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 20/46] fix: end crowdsales without contributions when the
 admin does not hold the payment asset

---
 pallet/crowdsale/src/impls.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pallet/crowdsale/src/impls.rs b/pallet/crowdsale/src/impls.rs
index 8d62264..d0bd1f6 100644
--- a/pallet/crowdsale/src/impls.rs
+++ b/pallet/crowdsale/src/impls.rs
@@ -152,13 +152,17 @@ impl<T: Config> Pallet<T> {
 				);
 
 				// transfer all payment_asset from the sale vault to the admin
-				T::MultiCurrency::transfer(
-					sale_info.payment_asset_id,
-					&sale_info.vault,
-					&sale_info.admin,
-					sale_info.funds_raised,
-					Preservation::Expendable,
-				)?;
+				// A transfer of zero is refused if the admin does not hold the payment asset, which
+				// must not prevent the sale from ending
+				if !sale_info.funds_raised.is_zero() {
+					T::MultiCurrency::transfer(
+						sale_info.payment_asset_id,
+						&sale_info.vault,
+						&sale_info.admin,
+						sale_info.funds_raised,
+						Preservation::Expendable,
+					)?;
+				}
 
 				let collection_max_issuance =
 					T::NFTExt::get_collection_issuance(sale_info.reward_collection_id)?
-- 
2.43.0


From fbaab3ebed22a044bc266c3f72ee75a996f13573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 21/46] fix: do not refund sold crowdsale vouchers to the admin
 when the funds raised are very large

---
 pallet/crowdsale/src/impls.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pallet/crowdsale/src/impls.rs b/pallet/crowdsale/src/impls.rs
index d0bd1f6..0a21d7f 100644
--- a/pallet/crowdsale/src/impls.rs
+++ b/pallet/crowdsale/src/impls.rs
@@ -180,11 +180,14 @@ impl<T: Config> Pallet<T> {
 					// price
 					let voucher_total_issuance =
 						collection_max_issuance.saturating_mul(10u128.pow(VOUCHER_DECIMALS as u32));
-					let voucher_price = sale_info.soft_cap_price;
-					let total_vouchers = sale_info
-						.funds_raised
-						.saturating_mul(10u128.pow(VOUCHER_DECIMALS as u32))
-						.saturating_div(voucher_price);
+					// (calculated as for the individual participants, without overflow)
+					let total_vouchers = Self::calculate_voucher_rewards(
+						sale_info.soft_cap_price,
+						sale_info.funds_raised,
+						sale_info.funds_raised.into(),
+						collection_max_issuance,
+					)
+					.map_err(|_| Error::<T>::VoucherClaimFailed)?;
 					let refunded_vouchers = voucher_total_issuance.saturating_sub(total_vouchers);
 
 					T::MultiCurrency::transfer(
-- 
2.43.0


From 96d1967da6523b09ee84af0435ac0f0326da7a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 22/46] fix: report the previous admin account in vortex
 AdminAccountChanged

---
 pallet/vortex-distribution/src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pallet/vortex-distribution/src/lib.rs b/pallet/vortex-distribution/src/lib.rs
index 4a356b5..34fa4bd 100644
--- a/pallet/vortex-distribution/src/lib.rs
+++ b/pallet/vortex-distribution/src/lib.rs
@@ -352,11 +352,9 @@ pub mod pallet {
 			ensure_root(origin)?;
 
 			let new = T::Lookup::lookup(new)?;
+			let old_key = AdminAccount::<T>::get();
 			AdminAccount::<T>::put(&new);
-			Self::deposit_event(Event::AdminAccountChanged {
-				old_key: AdminAccount::<T>::get(),
-				new_key: new,
-			});
+			Self::deposit_event(Event::AdminAccountChanged { old_key, new_key: new });
 			Ok(())
 		}
 
-- 
2.43.0


From ff1bc30776a23dd06d7065bce026d61e2d3d66ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 23/46] fix: replace, not add to, a vortex reward registered
 again

---
 pallet/vortex-distribution/src/lib.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/pallet/vortex-distribution/src/lib.rs b/pallet/vortex-distribution/src/lib.rs
index 34fa4bd..2690ca1 100644
--- a/pallet/vortex-distribution/src/lib.rs
+++ b/pallet/vortex-distribution/src/lib.rs
@@ -49,7 +49,7 @@ use seed_pallet_common::CreateExt;
 use seed_primitives::{AssetId, OffchainErr};
 use sp_runtime::{
 	traits::{AccountIdConversion, CheckedAdd, One, Saturating, StaticLookup, Zero},
-	RuntimeDebug,
+	ArithmeticError, RuntimeDebug,
 };
 use sp_staking::EraIndex;
 use sp_std::{convert::TryInto, prelude::*};
@@ -541,16 +541,19 @@ pub mod pallet {
 
 			match s {
 				VtxDistStatus::Enabled => {
-					let mut total_rewards: BalanceOf<T> = Zero::zero();
-					for (who, amount) in rewards.iter() {
-						total_rewards += *amount;
-						VtxDistOrderbook::<T>::mutate(id, who.clone(), |entry| {
-							*entry = (*amount, false);
-						});
-					}
-					TotalVortex::<T>::mutate(id, |total_vortex| {
-						*total_vortex = total_vortex.saturating_add(total_rewards);
-					});
+					TotalVortex::<T>::try_mutate(id, |total_vortex| -> DispatchResult {
+						for (who, amount) in rewards.iter() {
+							// A previously registered reward of the account is replaced by the new
+							// one, it must not be minted as well
+							let (replaced, _) = VtxDistOrderbook::<T>::get(id, who);
+							*total_vortex = total_vortex
+								.saturating_sub(replaced)
+								.checked_add(amount)
+								.ok_or(ArithmeticError::Overflow)?;
+							VtxDistOrderbook::<T>::insert(id, who, (*amount, false));
+						}
+						Ok(())
+					})?;
 					Self::deposit_event(Event::RewardRegistered { id, rewards });
 					Ok(())
 				},
-- 
2.43.0


From 6b8ef65e5969e30a4f38b21a40fb5d695d14357c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:07 +0000
Subject: [PATCH 24/46] fix: do not cap the product of two balances when vortex
 is redeemed

---
 pallet/vortex-distribution/src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pallet/vortex-distribution/src/lib.rs b/pallet/vortex-distribution/src/lib.rs
index 2690ca1..cb085bc 100644
--- a/pallet/vortex-distribution/src/lib.rs
+++ b/pallet/vortex-distribution/src/lib.rs
@@ -48,8 +48,9 @@ use scale_info::TypeInfo;
 use seed_pallet_common::CreateExt;
 use seed_primitives::{AssetId, OffchainErr};
 use sp_runtime::{
+	helpers_128bit::multiply_by_rational_with_rounding,
 	traits::{AccountIdConversion, CheckedAdd, One, Saturating, StaticLookup, Zero},
-	ArithmeticError, RuntimeDebug,
+	ArithmeticError, Rounding, RuntimeDebug, SaturatedConversion,
 };
 use sp_staking::EraIndex;
 use sp_std::{convert::TryInto, prelude::*};
@@ -610,7 +611,15 @@ pub mod pallet {
 				// issue. then multiply it with the vortex token amount the user wants to reddem to
 				// get the resulting asset token amount.
 				let asset_balance = T::MultiCurrency::balance(asset_id, &vault_account);
-				let redeem_amount = vortex_balance.saturating_mul(asset_balance) / total_vortex;
+				// The product of the two balances may not fit into a balance.
+				let redeem_amount: BalanceOf<T> = multiply_by_rational_with_rounding(
+					vortex_balance.saturated_into(),
+					asset_balance.saturated_into(),
+					total_vortex.saturated_into(),
+					Rounding::Down,
+				)
+				.ok_or(ArithmeticError::Overflow)?
+				.saturated_into();
 
 				Self::safe_transfer(asset_id, &vault_account, &who, redeem_amount, false)?;
 			}
-- 
2.43.0


From ddeeecc62e08e440fd515b5aa3e65689ebf1c569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:22 +0000
Subject: [PATCH 25/46] fix: saturate the length fee of the fee control pallet

---
 pallet/fee-control/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallet/fee-control/src/lib.rs b/pallet/fee-control/src/lib.rs
index 341d884..bc739ed 100644
--- a/pallet/fee-control/src/lib.rs
+++ b/pallet/fee-control/src/lib.rs
@@ -134,7 +134,7 @@ impl<T: Config> Pallet<T> {
 	}
 
 	pub fn length_to_fee(weight: &Weight) -> Balance {
-		Data::<T>::get().length_multiplier.mul(weight.ref_time() as Balance)
+		Data::<T>::get().length_multiplier.saturating_mul(weight.ref_time() as Balance)
 	}
 
 	pub fn base_fee_per_gas() -> U256 {
-- 
2.43.0


From af2273829cd573ec9b0e3ff93d270803ef4d7863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:33 +0000
Subject: [PATCH 26/46] fix: keep multi-block migrations within their weight
 budget

---
 pallet/migration/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pallet/migration/src/lib.rs b/pallet/migration/src/lib.rs
index d5fd09b..bd7e271 100644
--- a/pallet/migration/src/lib.rs
+++ b/pallet/migration/src/lib.rs
@@ -226,7 +226,7 @@ impl<T: Config> Pallet<T> {
 		let base_weight = T::WeightInfo::migrate();
 
 		// Check we have enough weight to perform at least one step
-		if weight_limit.all_lt(base_weight.saturating_add(max_step_weight)) {
+		if weight_limit.any_lt(base_weight.saturating_add(max_step_weight)) {
 			return Weight::zero();
 		}
 
@@ -254,7 +254,10 @@ impl<T: Config> Pallet<T> {
 		used_weight = used_weight.saturating_add(base_weight);
 
 		log::debug!(target: LOG_TARGET, "🦆 Starting multi-block migration for block {:?}", block_number);
-		while used_weight.all_lt(weight_limit) && step_counter < block_limit {
+		// Only take another step while it is certain to fit into the limit
+		while used_weight.saturating_add(max_step_weight).all_lte(weight_limit)
+			&& step_counter < block_limit
+		{
 			// Perform one migration step on the current migration
 			let step_result = T::CurrentMigration::step(last_key);
 			last_key = step_result.last_key.clone();
-- 
2.43.0


From 10aa47dba5b8a06963b7c6d1083149fe5bf20ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:30 +0000
Subject: [PATCH 27/46] fix: apply maintenance mode and blocked accounts to
 XRPL and doughnut transactions

---
 runtime/src/lib.rs | 60 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/runtime/src/lib.rs b/runtime/src/lib.rs
index e7631ba..4d2674c 100644
--- a/runtime/src/lib.rs
+++ b/runtime/src/lib.rs
@@ -2204,9 +2204,17 @@ impl fp_self_contained::SelfContainedCall for RuntimeCall {
 				Some(validate_self_contained_inner(self, call, signed_info, dispatch_info, len))
 			},
 			RuntimeCall::Xrpl(ref call) => {
+				if let Err(e) = check_self_contained_maintenance(self, signed_info, dispatch_info, len)
+				{
+					return Some(Err(e));
+				}
 				call.validate_self_contained(signed_info, dispatch_info, len)
 			},
 			RuntimeCall::Doughnut(ref call) => {
+				if let Err(e) = check_self_contained_maintenance(self, signed_info, dispatch_info, len)
+				{
+					return Some(Err(e));
+				}
 				call.validate_self_contained(signed_info, dispatch_info, len)
 			},
 			_ => None,
@@ -2224,9 +2232,17 @@ impl fp_self_contained::SelfContainedCall for RuntimeCall {
 				call.pre_dispatch_self_contained(signed_info, dispatch_info, len)
 			},
 			RuntimeCall::Xrpl(ref call) => {
+				if let Err(e) = check_self_contained_maintenance(self, signed_info, dispatch_info, len)
+				{
+					return Some(Err(e));
+				}
 				call.pre_dispatch_self_contained(signed_info, dispatch_info, len)
 			},
 			RuntimeCall::Doughnut(ref call) => {
+				if let Err(e) = check_self_contained_maintenance(self, signed_info, dispatch_info, len)
+				{
+					return Some(Err(e));
+				}
 				call.pre_dispatch_self_contained(signed_info, dispatch_info, len)
 			},
 			_ => None,
@@ -2262,6 +2278,50 @@ impl fp_self_contained::SelfContainedCall for RuntimeCall {
 	}
 }
 
+/// The signed extensions of the runtime do not run for self-contained calls, hence the maintenance
+/// checks for the accounts behind XRPL and Doughnut transactions are performed here
+fn check_self_contained_maintenance(
+	call: &RuntimeCall,
+	signed_info: &H160,
+	dispatch_info: &DispatchInfoOf<RuntimeCall>,
+	len: usize,
+) -> Result<(), TransactionValidityError> {
+	use seed_pallet_common::ExtrinsicChecker;
+	use sp_runtime::traits::{SignedExtension, StaticLookup};
+	let checker = pallet_maintenance_mode::MaintenanceChecker::<Runtime>::new();
+	match call {
+		RuntimeCall::Xrpl(pallet_xrpl::Call::transact { call: inner_call, .. }) => {
+			// for futurepass based transactions, the account which signed is the futurepass holder
+			let signer = if impls::FuturepassLookup::check_extrinsic(inner_call, &()) {
+				impls::FuturepassLookup::unlookup(*signed_info)
+			} else {
+				*signed_info
+			};
+			checker.validate(&signer.into(), inner_call, dispatch_info, len)?;
+		},
+		RuntimeCall::Doughnut(pallet_doughnut::Call::transact {
+			call: inner_call,
+			doughnut,
+			..
+		}) => {
+			// the holder signed the transaction, which is executed on behalf of the issuer
+			checker.validate(&(*signed_info).into(), inner_call, dispatch_info, len)?;
+			if let Ok(doughnut_rs::doughnut::Doughnut::V1(doughnut_v1)) =
+				doughnut_rs::doughnut::Doughnut::decode(&mut &doughnut[..])
+			{
+				let issuer =
+					AccountId::try_from(sp_core::ecdsa::Public::from_raw(doughnut_v1.issuer))
+						.map_err(|_| {
+							TransactionValidityError::Invalid(InvalidTransaction::BadSigner)
+						})?;
+				checker.validate(&issuer, inner_call, dispatch_info, len)?;
+			}
+		},
+		_ => {},
+	}
+	Ok(())
+}
+
 fn validate_self_contained_inner(
 	call: &RuntimeCall,
 	eth_call: &pallet_ethereum::Call<Runtime>,
-- 
2.43.0


From f2e4b7b432bb4f566e1a70e6b5859c4648efc724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:30 +0000
Subject: [PATCH 28/46] fix: check the block list for the target of an EVM call
 with fee preferences

---
 pallet/fee-proxy/src/runner.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pallet/fee-proxy/src/runner.rs b/pallet/fee-proxy/src/runner.rs
index c7e7e1e..0e0224e 100644
--- a/pallet/fee-proxy/src/runner.rs
+++ b/pallet/fee-proxy/src/runner.rs
@@ -319,6 +319,11 @@ where
 			input = new_input;
 			target = new_target;
 
+			// The actual target must not be blocked either
+			if !<T as Config>::MaintenanceChecker::validate_evm_call(&account, &target) {
+				return Err(RunnerError { error: Self::Error::WithdrawFailed, weight });
+			}
+
 			let base_fee_per_gas = <T as Config>::EVMBaseFeeProvider::evm_base_fee_per_gas();
 			let FeePreferencesData { path, total_fee_scaled, max_fee_scaled } =
 				get_fee_preferences_data::<T, U, P>(
-- 
2.43.0


From df13111fc7ca0ac437945641ca4770979c57c229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:46 +0000
Subject: [PATCH 29/46] fix: do not truncate amounts when checking them against
 a doughnut's topping

---
 runtime/src/impls.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runtime/src/impls.rs b/runtime/src/impls.rs
index d1f0dd5..980d3c4 100644
--- a/runtime/src/impls.rs
+++ b/runtime/src/impls.rs
@@ -976,7 +976,7 @@ impl seed_pallet_common::ExtrinsicChecker for DoughnutCallValidator {
 						// TODO: change the u64 conversion once pact Numeric support u128
 						&[
 							PactType::StringLike(StringLike(destination.to_vec())),
-							PactType::Numeric(Numeric(value_u128 as u64)),
+							PactType::Numeric(Numeric(value_u128.saturated_into::<u64>())),
 						],
 					)
 					.map_err(|_| pallet_doughnut::Error::<Runtime>::ToppingPermissionDenied)?;
@@ -995,7 +995,7 @@ impl seed_pallet_common::ExtrinsicChecker for DoughnutCallValidator {
 						// TODO: change the u64 conversion once pact Numeric support u128
 						&[
 							PactType::StringLike(StringLike(destination.to_vec())),
-							PactType::Numeric(Numeric(value_u128 as u64)),
+							PactType::Numeric(Numeric(value_u128.saturated_into::<u64>())),
 						],
 					)
 					.map_err(|_| pallet_doughnut::Error::<Runtime>::ToppingPermissionDenied)?;
@@ -1045,7 +1045,7 @@ impl seed_pallet_common::ExtrinsicChecker for DoughnutCallValidator {
 						&[
 							PactType::Numeric(Numeric(asset_id_u64)),
 							PactType::StringLike(StringLike(destination.to_vec())),
-							PactType::Numeric(Numeric(*amount as u64)),
+							PactType::Numeric(Numeric((*amount).saturated_into::<u64>())),
 							PactType::Numeric(Numeric(keep_alive_u64)),
 						],
 					)
-- 
2.43.0


From 39cb0520449b827e9f2150325ca63f806a69c0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:46 +0000
Subject: [PATCH 30/46] fix: a revoked doughnut cannot be used with another
 encoding or signature

---
 pallet/doughnut/src/lib.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pallet/doughnut/src/lib.rs b/pallet/doughnut/src/lib.rs
index 76678ae..b9eeccb 100644
--- a/pallet/doughnut/src/lib.rs
+++ b/pallet/doughnut/src/lib.rs
@@ -479,7 +479,11 @@ pub mod pallet {
 
 			// Ensure doughnut is not revoked
 			let doughnut_hash = keccak_256(&doughnut);
-			ensure!(!BlockedDoughnuts::<T>::get(doughnut_hash), Error::<T>::DoughnutRevoked);
+			ensure!(
+				!BlockedDoughnuts::<T>::get(doughnut_hash) &&
+					!BlockedDoughnuts::<T>::get(keccak_256(&doughnut_v1.payload())),
+				Error::<T>::DoughnutRevoked
+			);
 
 			// Ensure holder is not revoked
 			ensure!(
@@ -527,9 +531,18 @@ pub mod pallet {
 			// Only the issuer of the doughnut can revoke the doughnut
 			ensure!(who == Self::get_address(doughnut_v1.issuer)?, Error::<T>::CallerNotIssuer);
 			let doughnut_hash = keccak_256(&doughnut);
+			// The same doughnut can be encoded and signed in different ways, hence the revocation
+			// is also recorded for what the issuer signed
+			let payload_hash = keccak_256(&doughnut_v1.payload());
 			match revoke {
-				true => BlockedDoughnuts::<T>::insert(doughnut_hash, true),
-				false => BlockedDoughnuts::<T>::remove(doughnut_hash),
+				true => {
+					BlockedDoughnuts::<T>::insert(doughnut_hash, true);
+					BlockedDoughnuts::<T>::insert(payload_hash, true);
+				},
+				false => {
+					BlockedDoughnuts::<T>::remove(doughnut_hash);
+					BlockedDoughnuts::<T>::remove(payload_hash);
+				},
 			}
 			Self::deposit_event(Event::<T>::DoughnutRevokeStateUpdated {
 				doughnut_hash,
-- 
2.43.0


From 3b411062c9c434587510b40721979482617c5ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:44 +0000
Subject: [PATCH 31/46] fix: an XRPL transaction with an empty signing key is
 refused instead of panicking

---
 pallet/xrpl/src/types.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallet/xrpl/src/types.rs b/pallet/xrpl/src/types.rs
index c14094c..e364692 100644
--- a/pallet/xrpl/src/types.rs
+++ b/pallet/xrpl/src/types.rs
@@ -121,7 +121,8 @@ impl XRPLTransaction {
 			hex::decode(&self.signing_pub_key).map_err(|_| "Error decoding hex string")?;
 		// check prefix (ignore-case "ED") to determine the public key type
 		// uppercase first 2 characters and compare with "ED"
-		let key_prefix = &self.signing_pub_key[0..2].to_uppercase();
+		let key_prefix =
+			self.signing_pub_key.get(0..2).ok_or("Missing public key")?.to_uppercase();
 		match key_prefix.as_str() {
 			"ED" => {
 				// remove the first byte (prefix) from the public key
-- 
2.43.0


From 6ce3066d7300efb2d02cf288b332213ee449c811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:11 +0000
Subject: [PATCH 32/46] fix: short call data sent through a futurepass reverts
 instead of panicking

---
 evm-precompiles/futurepass/src/lib.rs | 3 ++-
 runtime/src/impls.rs                  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/evm-precompiles/futurepass/src/lib.rs b/evm-precompiles/futurepass/src/lib.rs
index e70ac3b..b479efc 100644
--- a/evm-precompiles/futurepass/src/lib.rs
+++ b/evm-precompiles/futurepass/src/lib.rs
@@ -310,7 +310,7 @@ where
 
 		// restrict delegate access to whitelist
 		if call_to.0.as_bytes().starts_with(FUTUREPASS_PRECOMPILE_ADDRESS_PREFIX) {
-			let sub_call_selector = &call_data.inner[..4];
+			let sub_call_selector = call_data.inner.get(..4).unwrap_or_default();
 			if sub_call_selector
 				== &keccak256!("registerDelegateWithSignature(address,uint8,uint32,bytes)")[..4]
 				|| sub_call_selector == &keccak256!("unregisterDelegate(address)")[..4]
@@ -496,6 +496,7 @@ where
 				handle.record_log_costs_manual(4, 32)?;
 
 				let creation_code_len = call_data.inner.len();
+				ensure!(creation_code_len >= 32, revert("Futurepass: Salt missing"));
 				let call_data_vec = call_data.into_vec();
 
 				// salt is the last 32 bytes of the creation code
diff --git a/runtime/src/impls.rs b/runtime/src/impls.rs
index 980d3c4..1dbf8f4 100644
--- a/runtime/src/impls.rs
+++ b/runtime/src/impls.rs
@@ -743,7 +743,7 @@ impl pallet_evm_precompiles_futurepass::EvmProxyCallFilter for ProxyType {
 			|| call.to.0.as_bytes().starts_with(FUTUREPASS_PRECOMPILE_ADDRESS_PREFIX)
 		{
 			// Whitelist for precompile side
-			let sub_call_selector = &call.call_data.inner[..4];
+			let sub_call_selector = call.call_data.inner.get(..4).unwrap_or_default();
 			if sub_call_selector
 				== &keccak256!("registerDelegateWithSignature(address,uint8,uint32,bytes)")[..4]
 				|| sub_call_selector == &keccak256!("unregisterDelegate(address)")[..4]
-- 
2.43.0


From 74c7b3864fc5e7da4234f9609159c808dbbe3004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:28 +0000
Subject: [PATCH 33/46] fix: contracts cannot borrow their caller's authority
 over a futurepass with DELEGATECALL

---
 runtime/src/precompiles.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/runtime/src/precompiles.rs b/runtime/src/precompiles.rs
index 1b20b97..45ad75b 100644
--- a/runtime/src/precompiles.rs
+++ b/runtime/src/precompiles.rs
@@ -89,11 +89,6 @@ pub type FutureversePrecompiles<R> = PrecompileSetBuilder<
 		PrecompileSetStartingWith<Erc721AssetPrefix, Erc721PrecompileSet<R>>,
 		PrecompileSetStartingWith<Erc1155AssetPrefix, Erc1155PrecompileSet<R>>,
 		PrecompileSetStartingWith<Erc20AssetPrefix, Erc20PrecompileSet<R>>,
-		PrecompileSetStartingWith<
-			FuturepassPrefix,
-			FuturePassPrecompileSet<R>,
-			LimitRecursionTo<1>,
-			AllowDelegateCall,
-		>,
+		PrecompileSetStartingWith<FuturepassPrefix, FuturePassPrecompileSet<R>, LimitRecursionTo<1>>,
 	),
 >;
-- 
2.43.0


From 5af0579bcfb7d377d3be2c96879b5cd49e42f3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:26 +0000
Subject: [PATCH 34/46] fix: a delegate who becomes a futurepass' owner is no
 longer kept as a delegate as well

---
 pallet/futurepass/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pallet/futurepass/src/lib.rs b/pallet/futurepass/src/lib.rs
index 2a74ba8..1b8d091 100644
--- a/pallet/futurepass/src/lib.rs
+++ b/pallet/futurepass/src/lib.rs
@@ -434,6 +434,11 @@ pub mod pallet {
 					Error::<T>::AccountAlreadyRegistered
 				);
 
+				// A delegate who becomes the owner must not stay registered as a mere delegate too
+				if *new_owner != current_owner && T::Proxy::exists(&futurepass, new_owner, None) {
+					T::Proxy::remove_delegate(&caller, &futurepass, new_owner)?;
+				}
+
 				// Add the new owner as a proxy delegate with the most permissive type, i.e.,
 				T::Proxy::add_delegate(&caller, &futurepass, new_owner, &255)?; // owner is maxu8
 
-- 
2.43.0


From 29c89e7ca38a7dd6190c8d642bed7f336c176808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:38 +0000
Subject: [PATCH 35/46] fix: only a futurepass' owner manages it, also when the
 request goes through an EVM call

---
 runtime/src/impls.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/runtime/src/impls.rs b/runtime/src/impls.rs
index 1dbf8f4..330af51 100644
--- a/runtime/src/impls.rs
+++ b/runtime/src/impls.rs
@@ -30,6 +30,7 @@ use frame_support::{
 	weights::WeightToFee,
 };
 use pallet_evm::{AddressMapping as AddressMappingT, EnsureAddressOrigin, OnChargeEVMTransaction};
+use pallet_fee_proxy::FeePreferencesRunner;
 use sp_core::{H160, U256};
 use sp_runtime::{
 	generic::{Era, SignedPayload},
@@ -56,8 +57,8 @@ use seed_pallet_common::{
 use seed_primitives::{AccountId, Balance, Nonce, Signature};
 
 use crate::{
-	BlockHashCount, Runtime, RuntimeCall, Session, SessionsPerEra, SlashPotId, Staking, System,
-	UncheckedExtrinsic, EVM,
+	BlockHashCount, Futurepass, Runtime, RuntimeCall, Session, SessionsPerEra, SlashPotId, Staking,
+	System, UncheckedExtrinsic, EVM,
 };
 use doughnut_rs::Topping;
 
@@ -791,6 +792,22 @@ impl InstanceFilter<RuntimeCall> for ProxyType {
 			// the owner of the futurepass
 			return self == &ProxyType::Owner;
 		}
+		// The same applies to the futurepass precompiles, which see the futurepass as the caller
+		if let RuntimeCall::EVM(pallet_evm::Call::call { target, input, .. }) = c {
+			let mut target = *target;
+			if target == H160::from_low_u64_be(FEE_PROXY_ADDRESS) {
+				if let Ok((_, inner_target, _)) =
+					FeePreferencesRunner::<Runtime, Runtime, Futurepass>::decode_input(input.clone())
+				{
+					target = inner_target;
+				}
+			}
+			if target == H160::from_low_u64_be(FUTUREPASS_REGISTRAR_PRECOMPILE)
+				|| target.as_bytes().starts_with(FUTUREPASS_PRECOMPILE_ADDRESS_PREFIX)
+			{
+				return self == &ProxyType::Owner;
+			}
+		}
 		match self {
 			ProxyType::Owner => true,
 			ProxyType::Any => true,
-- 
2.43.0


From ed03daccdf6eea4f34623fbe6b8d016f36e23bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:17 +0000
Subject: [PATCH 36/46] fix: fees beyond the range of a balance saturate
 instead of panicking

---
 pallet/common/src/utils.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pallet/common/src/utils.rs b/pallet/common/src/utils.rs
index 19ad260..58da254 100644
--- a/pallet/common/src/utils.rs
+++ b/pallet/common/src/utils.rs
@@ -18,6 +18,7 @@ use codec::{Decode, Encode, MaxEncodedLen};
 use scale_info::TypeInfo;
 use seed_primitives::{AssetId, Balance};
 use sp_core::U256;
+use sp_runtime::SaturatedConversion;
 // Maximum value that fits into 22 bits
 const MAX_U22: u32 = (1 << 22) - 1;
 // Maximum value that fits into 10 bits
@@ -46,15 +47,16 @@ pub fn next_asset_uuid(next_id: u32, parachain_id: u32) -> Option<u32> {
 
 /// Convert 18dp wei values to correct dp equivalents
 /// fractional amounts < `CPAY_UNIT_VALUE` are rounded up by adding 1 / 0.000001 cpay
+/// amounts that do not fit into a `Balance` saturate
 pub fn scale_wei_to_correct_decimals(value: U256, decimals: u8) -> Balance {
 	let unit_value = U256::from(10).pow(U256::from(18) - U256::from(decimals));
 	let (quotient, remainder) = (value / unit_value, value % unit_value);
 	if remainder == U256::from(0) {
-		quotient.as_u128()
+		quotient.saturated_into()
 	} else {
 		// if value has a fractional part < CPAY unit value
 		// it is lost in this divide operation
-		(quotient + 1).as_u128()
+		(quotient.saturating_add(U256::one())).saturated_into()
 		// (quotient).as_u128() // <- validate this is correct
 	}
 }
-- 
2.43.0


From 59e23cf7da46f2ac8b1316b3d54276f7146a9098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:14 +0000
Subject: [PATCH 37/46] fix: safe transfers to a receiver answering fewer than
 4 bytes revert instead of panicking

The response of onERC721Received, onERC1155Received and onERC1155BatchReceived was sliced to 4 bytes whatever its length; a receiving contract that answers nothing panicked the runtime.
---
 evm-precompiles/erc1155/src/lib.rs | 4 ++--
 evm-precompiles/erc721/src/lib.rs  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/evm-precompiles/erc1155/src/lib.rs b/evm-precompiles/erc1155/src/lib.rs
index f4ccc06..c09d226 100644
--- a/evm-precompiles/erc1155/src/lib.rs
+++ b/evm-precompiles/erc1155/src/lib.rs
@@ -444,7 +444,7 @@ where
 			// Check response from call
 			match reason {
 				ExitReason::Succeed(_) => {
-					if output[..4] != ON_ERC1155_RECEIVED_FUNCTION_SELECTOR.to_vec() {
+					if !output.starts_with(&ON_ERC1155_RECEIVED_FUNCTION_SELECTOR) {
 						return Err(revert("ERC1155: ERC1155Receiver rejected tokens"));
 					}
 				},
@@ -548,7 +548,7 @@ where
 			// Check response from call
 			match reason {
 				ExitReason::Succeed(_) => {
-					if output[..4] != ON_ERC1155_BATCH_RECEIVED_FUNCTION_SELECTOR.to_vec() {
+					if !output.starts_with(&ON_ERC1155_BATCH_RECEIVED_FUNCTION_SELECTOR) {
 						return Err(revert("ERC1155: ERC1155Receiver rejected tokens"));
 					}
 				},
diff --git a/evm-precompiles/erc721/src/lib.rs b/evm-precompiles/erc721/src/lib.rs
index a3c7e9f..537b8b3 100644
--- a/evm-precompiles/erc721/src/lib.rs
+++ b/evm-precompiles/erc721/src/lib.rs
@@ -488,7 +488,7 @@ where
 			// Check response from call
 			match reason {
 				ExitReason::Succeed(_) => {
-					if output[..4] != ON_ERC721_RECEIVED_FUNCTION_SELECTOR.to_vec() {
+					if !output.starts_with(&ON_ERC721_RECEIVED_FUNCTION_SELECTOR) {
 						return Err(revert("ERC721: transfer to non ERC721Receiver implementer"));
 					}
 				},
-- 
2.43.0


From f8aaca55170f542591184985dc75d9846d1a6b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:14 +0000
Subject: [PATCH 38/46] fix: ERC1155 batch transfers ask the receiver through
 onERC1155BatchReceived

They called onERC1155Received with the batch arguments, which a compliant receiver rejects.
---
 evm-precompiles/erc1155/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evm-precompiles/erc1155/src/lib.rs b/evm-precompiles/erc1155/src/lib.rs
index c09d226..bffcd77 100644
--- a/evm-precompiles/erc1155/src/lib.rs
+++ b/evm-precompiles/erc1155/src/lib.rs
@@ -536,7 +536,7 @@ where
 			// Setup input for onErc1155BatchReceived call
 			let sub_context =
 				Context { address: to, caller: operator, apparent_value: Default::default() };
-			let input = EvmDataWriter::new_with_selector(Action::OnErc1155Received)
+			let input = EvmDataWriter::new_with_selector(Action::OnErc1155BatchReceived)
 				.write::<Address>(operator.into())
 				.write::<Address>(from)
 				.write::<Vec<U256>>(ids)
-- 
2.43.0


From 74856de8806af09bf0609d5c898107cdf80af274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:14 +0000
Subject: [PATCH 39/46] fix: ERC721 and ERC1155 functions that change state are
 refused in a static context

ERC721 burn and ERC1155 renounceOwnership, transferOwnership, createToken, setMaxSupply and setBaseURI were treated as views, so a STATICCALL could change the ledger.
---
 evm-precompiles/erc1155/src/lib.rs | 5 +++++
 evm-precompiles/erc721/src/lib.rs  | 1 +
 2 files changed, 6 insertions(+)

diff --git a/evm-precompiles/erc1155/src/lib.rs b/evm-precompiles/erc1155/src/lib.rs
index bffcd77..af4a4c4 100644
--- a/evm-precompiles/erc1155/src/lib.rs
+++ b/evm-precompiles/erc1155/src/lib.rs
@@ -162,6 +162,11 @@ where
 						| Action::SafeBatchTransferFrom
 						| Action::Burn
 						| Action::BurnBatch
+						| Action::RenounceOwnership
+						| Action::TransferOwnership
+						| Action::CreateToken
+						| Action::SetMaxSupply
+						| Action::SetBaseURI
 						| Action::Mint
 						| Action::TogglePublicMint
 						| Action::SetMintFee
diff --git a/evm-precompiles/erc721/src/lib.rs b/evm-precompiles/erc721/src/lib.rs
index 537b8b3..a526b91 100644
--- a/evm-precompiles/erc721/src/lib.rs
+++ b/evm-precompiles/erc721/src/lib.rs
@@ -183,6 +183,7 @@ where
 						| Action::ReRequestXls20Mint
 						| Action::TogglePublicMint
 						| Action::SetMintFee
+						| Action::Burn
 						| Action::Mint => FunctionModifier::NonPayable,
 						_ => FunctionModifier::View,
 					}) {
-- 
2.43.0


From a3fa3002922d021e82ebace229ccb7fc25c01365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:14 +0000
Subject: [PATCH 40/46] fix: re-requesting too many XLS-20 mints through the
 ERC721 precompile reverts instead of panicking

---
 evm-precompiles/erc721/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evm-precompiles/erc721/src/lib.rs b/evm-precompiles/erc721/src/lib.rs
index a526b91..d421642 100644
--- a/evm-precompiles/erc721/src/lib.rs
+++ b/evm-precompiles/erc721/src/lib.rs
@@ -1138,7 +1138,8 @@ where
 		let serial_numbers: BoundedVec<
 			SerialNumber,
 			<Runtime as pallet_xls20::Config>::MaxTokensPerXls20Mint,
-		> = BoundedVec::try_from(serial_numbers_unbounded).expect("Should not fail");
+		> = BoundedVec::try_from(serial_numbers_unbounded)
+			.map_err(|_| revert("XLS20: Too many serial numbers in one request."))?;
 
 		// Dispatch call (if enough gas).
 		RuntimeHelper::<Runtime>::try_dispatch(
-- 
2.43.0


From 6e3c89af08babcbdc0224e21ce04e9fd890319a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:42 +0000
Subject: [PATCH 41/46] fix: an event still being witnessed by the ethy gadget
 is not taken for a completed one when later events complete first

---
 ethy-gadget/src/witness_record.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ethy-gadget/src/witness_record.rs b/ethy-gadget/src/witness_record.rs
index 6fb6221..af211f3 100644
--- a/ethy-gadget/src/witness_record.rs
+++ b/ethy-gadget/src/witness_record.rs
@@ -175,7 +175,9 @@ impl WitnessRecord {
 			// If we have only 1 event, and it's not in completed events, that means the
 			// completed_events id is 1 and the new event_id is 0, so comparing with the lowest
 			// won't work
-			if self.completed_events.len() > 1 {
+			// An event with metadata is still being witnessed (its metadata is removed upon
+			// completion), it doesn't matter that later events have been completed already
+			if self.completed_events.len() > 1 && !self.event_meta.contains_key(&witness.event_id) {
 				if let Some(completed_watermark) = self.completed_events.first() {
 					if witness.event_id <= *completed_watermark {
 						return Err(WitnessError::CompletedEvent);
-- 
2.43.0


From 23599384dbabd0e40f281d442c4578182fedfcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:42 +0000
Subject: [PATCH 42/46] fix: an ethy event in flight keeps the validator sets
 it was requested with

---
 ethy-gadget/src/types.rs          |  8 +++++++-
 ethy-gadget/src/witness_record.rs | 26 +++++++++++++++++++++-----
 ethy-gadget/src/worker.rs         |  6 +++---
 3 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/ethy-gadget/src/types.rs b/ethy-gadget/src/types.rs
index 0b87f9c..32250b9 100644
--- a/ethy-gadget/src/types.rs
+++ b/ethy-gadget/src/types.rs
@@ -14,7 +14,9 @@
 // You may obtain a copy of the License at the root of this project source code
 
 //! ethy-gadget types
-use seed_primitives::ethy::{EthyChainId, EventProofId, ETHY_ENGINE_ID};
+use seed_primitives::ethy::{
+	crypto::AuthorityId, EthyChainId, EventProofId, ValidatorSet, ETHY_ENGINE_ID,
+};
 
 /// Metadata about an Ethy event
 pub struct EventMetadata {
@@ -26,6 +28,10 @@ pub struct EventMetadata {
 	pub digest_data: Vec<u8>,
 	/// The (finalized) block hash where the event proof was made
 	pub block_hash: [u8; 32],
+	/// The validator set active when the event was requested, signatures are indexed by it
+	pub validators: ValidatorSet<AuthorityId>,
+	/// The XRPL signers (subset of `validators`) when the event was requested
+	pub xrpl_validators: ValidatorSet<AuthorityId>,
 }
 
 /// An Ethy proof request
diff --git a/ethy-gadget/src/witness_record.rs b/ethy-gadget/src/witness_record.rs
index af211f3..3a128ca 100644
--- a/ethy-gadget/src/witness_record.rs
+++ b/ethy-gadget/src/witness_record.rs
@@ -105,9 +105,10 @@ impl WitnessRecord {
 	pub fn has_consensus(&self, event_id: EventProofId, chain_id: EthyChainId) -> bool {
 		trace!(target: "ethy", "💎 event {:?}, witnesses: {:?}", event_id, self.witnesses.get(&event_id));
 
+		let (validators, xrpl_validators) = self.validators_for(event_id);
 		let proof_threshold = match chain_id {
-			EthyChainId::Ethereum => self.validators.proof_threshold as usize,
-			EthyChainId::Xrpl => self.xrpl_validators.proof_threshold as usize,
+			EthyChainId::Ethereum => validators.proof_threshold as usize,
+			EthyChainId::Xrpl => xrpl_validators.proof_threshold as usize,
 		};
 
 		let witness_count = match chain_id {
@@ -117,9 +118,9 @@ impl WitnessRecord {
 				// count signatures from the XRPL authorized signers only
 				w.iter()
 					.filter(|(idx, _sig)| {
-						let ethy_pub_key = self.validators.validators.get(*idx as usize);
+						let ethy_pub_key = validators.validators.get(*idx as usize);
 						if let Some(ethy_pub_key) = ethy_pub_key {
-							self.xrpl_validators.authority_index(ethy_pub_key).is_some()
+							xrpl_validators.authority_index(ethy_pub_key).is_some()
 						} else {
 							false
 						}
@@ -133,6 +134,18 @@ impl WitnessRecord {
 		witness_count >= proof_threshold
 	}
 
+	/// Return the validator sets (ethy, XRPL subset) responsible for an event, i.e. the sets that were
+	/// active when the event was requested. An event in flight keeps its sets when they change
+	fn validators_for(
+		&self,
+		event_id: EventProofId,
+	) -> (&ValidatorSet<AuthorityId>, &ValidatorSet<AuthorityId>) {
+		match self.event_meta.get(&event_id) {
+			Some(metadata) => (&metadata.validators, &metadata.xrpl_validators),
+			None => (&self.validators, &self.xrpl_validators),
+		}
+	}
+
 	/// Return event metadata
 	pub fn event_metadata(&self, event_id: EventProofId) -> Option<&EventMetadata> {
 		self.event_meta.get(&event_id)
@@ -162,6 +175,8 @@ impl WitnessRecord {
 			block_hash,
 			digest_data,
 			chain_id,
+			validators: self.validators.clone(),
+			xrpl_validators: self.xrpl_validators.clone(),
 		});
 	}
 	/// Note a witness if we haven't seen it before
@@ -234,7 +249,8 @@ impl WitnessRecord {
 		// Convert authority secp256k1 public key into ordered index
 		// this is useful to efficiently generate the full proof later
 		let authority_index = self
-			.validators
+			.validators_for(witness.event_id)
+			.0
 			.authority_index(&witness.authority_id)
 			.ok_or(WitnessError::UnknownAuthority)? as AuthorityIndex;
 
diff --git a/ethy-gadget/src/worker.rs b/ethy-gadget/src/worker.rs
index d6406f8..72797b9 100644
--- a/ethy-gadget/src/worker.rs
+++ b/ethy-gadget/src/worker.rs
@@ -352,12 +352,12 @@ where
 
 		// process any unverified witnesses, received before event metadata was known
 		self.witness_record.process_unverified_witnesses(event_id);
-		let EventMetadata { chain_id, block_hash, digest_data } =
+		let EventMetadata { chain_id, block_hash, digest_data, validators, .. } =
 			self.witness_record.event_metadata(event_id).expect("metadata is known; qed");
 
 		if self.witness_record.has_consensus(event_id, *chain_id) {
 			let signatures = self.witness_record.signatures_for(event_id);
-			info!(target: "ethy", "💎 generating proof for event: {:?}, signatures: {:?}, validator set: {:?}", event_id, signatures, self.validator_set.id);
+			info!(target: "ethy", "💎 generating proof for event: {:?}, signatures: {:?}, validator set: {:?}", event_id, signatures, validators.id);
 			// NOTE: XRPL digest is unique per pubkey. For Ethereum it's the same as digest_data.
 			// Anyway EventProof.digest is not used by any other part of the code
 			let Some(digest) = data_to_digest(*chain_id, digest_data.clone(), [0_u8; 33]) else {
@@ -367,7 +367,7 @@ where
 			let event_proof = EventProof {
 				digest,
 				event_id,
-				validator_set_id: self.validator_set.id,
+				validator_set_id: validators.id,
 				block: *block_hash,
 				signatures: signatures.clone(),
 			};
-- 
2.43.0


From 7e24c943d36d517ea96e3dc6321dbc5e70a96327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:42 +0000
Subject: [PATCH 43/46] fix: the ethy gadget proves XRPL requests with the
 signers authorised at their block

---
 ethy-gadget/src/witness_record.rs | 4 ++++
 ethy-gadget/src/worker.rs         | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/ethy-gadget/src/witness_record.rs b/ethy-gadget/src/witness_record.rs
index 3a128ca..436f916 100644
--- a/ethy-gadget/src/witness_record.rs
+++ b/ethy-gadget/src/witness_record.rs
@@ -81,6 +81,10 @@ impl WitnessRecord {
 		self.validators = validators;
 		self.xrpl_validators = xrpl_validators;
 	}
+	/// Set the XRPL subset of the active `ValidatorSet`
+	pub fn set_xrpl_validators(&mut self, xrpl_validators: ValidatorSet<AuthorityId>) {
+		self.xrpl_validators = xrpl_validators;
+	}
 	/// Remove a witness record from memory (typically after it has achieved consensus)
 	pub fn mark_complete(&mut self, event_id: EventProofId) {
 		self.witnesses.remove(&event_id);
diff --git a/ethy-gadget/src/worker.rs b/ethy-gadget/src/worker.rs
index 72797b9..cd09666 100644
--- a/ethy-gadget/src/worker.rs
+++ b/ethy-gadget/src/worker.rs
@@ -298,6 +298,14 @@ where
 			}
 		}
 
+		// The XRPL signers may change without a validator set change, make sure proof requests are
+		// witnessed with the signers authorized at this block
+		if !extract_proof_requests::<B>(&new_header).is_empty() {
+			if let Some(xrpl_validators) = self.xrpl_validator_set(&new_header) {
+				self.witness_record.set_xrpl_validators(xrpl_validators);
+			}
+		}
+
 		// Process proof requests
 		if let Some(authority_id) =
 			self.key_store.authority_id(self.validator_set.validators.as_slice())
-- 
2.43.0


From 2ada81c0ab2e299630869aca9ed58b7440420dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:12 +0000
Subject: [PATCH 44/46] fix: futurepass precompile checks value and static
 context of its functions

---
 evm-precompiles/futurepass/src/lib.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/evm-precompiles/futurepass/src/lib.rs b/evm-precompiles/futurepass/src/lib.rs
index b479efc..cd7dfc7 100644
--- a/evm-precompiles/futurepass/src/lib.rs
+++ b/evm-precompiles/futurepass/src/lib.rs
@@ -160,6 +160,21 @@ where
 				},
 			};
 
+			// a proxied call may be paid for, and checks the context itself
+			let modifier = match selector {
+				Action::Default | Action::ProxyCall => None,
+				Action::DelegateType | Action::Owner => Some(FunctionModifier::View),
+				Action::RegisterDelegateWithSignature
+				| Action::UnRegisterDelegate
+				| Action::RenounceOwnership
+				| Action::TransferOwnership => Some(FunctionModifier::NonPayable),
+			};
+			if let Some(modifier) = modifier {
+				if let Err(err) = handle.check_function_modifier(modifier) {
+					return Some(Err(err.into()));
+				}
+			}
+
 			match selector {
 				Action::Default => Self::receive(handle),
 				Action::DelegateType => Self::delegate_type(handle),
@@ -308,6 +323,11 @@ where
 			.try_into()
 			.map_err(|err| RevertReason::custom(alloc::format!("Futurepass: {}", err)))?;
 
+		// in a static context only calls that cannot write are made
+		if !matches!(call_type, CallType::StaticCall) || !value.is_zero() {
+			handle.check_function_modifier(FunctionModifier::Payable)?;
+		}
+
 		// restrict delegate access to whitelist
 		if call_to.0.as_bytes().starts_with(FUTUREPASS_PRECOMPILE_ADDRESS_PREFIX) {
 			let sub_call_selector = call_data.inner.get(..4).unwrap_or_default();
-- 
2.43.0


From a3402c0304ced03f906d664009f298bb0d2e5325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:24 +0000
Subject: [PATCH 45/46] fix: futurepass ownership calls act only on the
 futurepass called

---
 evm-precompiles/futurepass/src/lib.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/evm-precompiles/futurepass/src/lib.rs b/evm-precompiles/futurepass/src/lib.rs
index cd7dfc7..61de88a 100644
--- a/evm-precompiles/futurepass/src/lib.rs
+++ b/evm-precompiles/futurepass/src/lib.rs
@@ -614,10 +614,22 @@ where
 		Ok(succeed(EvmDataWriter::new().write(Address::from(owner)).build()))
 	}
 
+	/// The ownership functions act on the caller's futurepass, so it must be the one called
+	fn ensure_called_by_owner(handle: &mut impl PrecompileHandle) -> EvmResult {
+		handle.record_cost(RuntimeHelper::<Runtime>::db_read_gas_cost())?;
+		let caller = Runtime::AccountId::from(handle.context().caller);
+		ensure!(
+			pallet_futurepass::Holders::<Runtime>::get(caller) == Some(handle.code_address().into()),
+			revert("Futurepass: NotFuturepassOwner")
+		);
+		Ok(())
+	}
+
 	fn renounce_ownership(handle: &mut impl PrecompileHandle) -> EvmResult<PrecompileOutput> {
 		handle.record_log_costs_manual(3, 32)?;
 
 		let caller = handle.context().caller;
+		Self::ensure_called_by_owner(handle)?;
 		let burn_account: H160 = H160::default();
 
 		// Dispatch call (if enough gas).
@@ -651,6 +663,7 @@ where
 		read_args!(handle, { new_owner: Address });
 		let new_owner: H160 = new_owner.into();
 		let caller = handle.context().caller;
+		Self::ensure_called_by_owner(handle)?;
 
 		// Dispatch call (if enough gas).
 		RuntimeHelper::<Runtime>::try_dispatch(
-- 
2.43.0


From 2798d651f642cf550b3f5514ca30b9bf45ee727b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:08 +0000
Subject: [PATCH 46/46] fix: NFI migration takes old records out before writing
 new ones

The old and new maps share a storage prefix: iterating the old one while inserting into the new one met the new keys, decoded them as old ones and wrote records for tokens which do not exist, and the old records stayed behind.
---
 runtime/src/migrations/nfi.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/runtime/src/migrations/nfi.rs b/runtime/src/migrations/nfi.rs
index 59ec437..8312122 100644
--- a/runtime/src/migrations/nfi.rs
+++ b/runtime/src/migrations/nfi.rs
@@ -127,9 +127,12 @@ pub mod v1 {
 		let chain_id = ChainId::<T>::get();
 
 		// Migrate NFI Data
-		for (token_id, sub_type, nfi_data) in NfiData::<T>::iter() {
+		// The new keys share the storage prefix of the old ones, so all old records are taken out
+		// before the first new one is written
+		let nfi_data: Vec<_> = NfiData::<T>::drain().collect();
+		for (token_id, sub_type, nfi_data) in nfi_data {
 			weight = weight
-				.saturating_add(<T as frame_system::Config>::DbWeight::get().reads_writes(1, 1));
+				.saturating_add(<T as frame_system::Config>::DbWeight::get().reads_writes(1, 2));
 			let multi_chain_token = MultiChainTokenId {
 				chain_id,
 				collection_id: GenericCollectionId::U32(token_id.0),
@@ -139,9 +142,10 @@ pub mod v1 {
 		}
 
 		// Migrate NFIEnabled
-		for (collection_id, sub_type, enabled) in NfiEnabled::<T>::iter() {
+		let nfi_enabled: Vec<_> = NfiEnabled::<T>::drain().collect();
+		for (collection_id, sub_type, enabled) in nfi_enabled {
 			weight = weight
-				.saturating_add(<T as frame_system::Config>::DbWeight::get().reads_writes(1, 1));
+				.saturating_add(<T as frame_system::Config>::DbWeight::get().reads_writes(1, 2));
 			let collection_id = GenericCollectionId::U32(collection_id);
 			NewNfiEnabled::<T>::insert((chain_id, collection_id), sub_type, enabled);
 		}
-- 
2.43.0

