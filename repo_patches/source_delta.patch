From 87a3ec7bbdd4c6bd6a410a6c70af7cb9621846be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:26 +0000
Subject: [PATCH 01/10] fix: a refuted or stale suspicion timeout must not send
 TurnUndead

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4243788..e90a64e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -715,11 +715,14 @@ where
                             member.incarnation() == incarnation
                         })
                     {
+                        // A suspicion that has been refuted (or is otherwise stale) leaves
+                        // the member as is: it must not be told that it's down
+                        let declared_down = summary.apply_successful;
                         self.handle_apply_summary(summary, as_down, true, &mut runtime)?;
                         // Member went down we might need to adjust our internal state
                         self.adjust_connection_state(&mut runtime);
 
-                        if self.config.notify_down_members {
+                        if declared_down && self.config.notify_down_members {
                             // As a courtesy, we send a lightweight message to the member
                             // we're declaring down so that if it manages to receive it,
                             // it can react accordingly
-- 
2.43.0


From 614bc9ed448326e7e642fac659c069608cd9244c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:30 +0000
Subject: [PATCH 02/10] fix: a suspicion timeout applies to the suspected
 identity only

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e90a64e..c7de91c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -709,10 +709,10 @@ where
                         .members
                         // Down is terminal, so before doing that we ensure the member
                         // is still under suspicion.
-                        // Checking only incarnation is sufficient because to refute
+                        // Checking identity and incarnation is sufficient because to refute
                         // suspicion the member must increment its own incarnation
                         .apply_existing_if(as_down.clone(), |member| {
-                            member.incarnation() == incarnation
+                            member.id() == &member_id && member.incarnation() == incarnation
                         })
                     {
                         // A suspicion that has been refuted (or is otherwise stale) leaves
-- 
2.43.0


From 12ca3365a1904111e98a8492e44c2de0ea5fda3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:24 +0000
Subject: [PATCH 03/10] fix: a failed probe must not replace another identity
 of the probed address

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c7de91c..62f3654 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1163,12 +1163,12 @@ where
             //  3. The member is now Down, either by leaving voluntarily or by
             //     being declared down by another cluster member
             //
-            //  4. The member doesn't exist anymore. i.e. a newer identity with
+            //  4. The member doesn't exist anymore. i.e. another identity with
             //     the same address has appeared in the cluster
             let as_suspect = Member::new(failed.id().clone(), failed.incarnation(), State::Suspect);
             if let Some(summary) = self
                 .members
-                .apply_existing_if(as_suspect.clone(), |_member| true)
+                .apply_existing_if(as_suspect.clone(), |member| member.id() == failed.id())
             {
                 let is_active_now = summary.is_active_now;
                 #[cfg_attr(not(feature = "tracing"), expect(unused_variables))]
-- 
2.43.0


From 7e2c58e44a93374557ab399e16dc9b8e397c9f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:37 +0000
Subject: [PATCH 04/10] fix: never announce to down records of the own address

---
 src/lib.rs    | 10 ++++++++--
 src/member.rs | 17 ++++++++++++++++-
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 62f3654..ea3d249 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -493,8 +493,14 @@ where
 
     fn announce_to_down(&mut self, num_members: usize, mut runtime: impl Runtime<T>) -> Result<()> {
         self.choice_buf.clear();
-        self.members
-            .choose_down_members(num_members, &mut self.choice_buf, &mut self.rng);
+        // Previous identities of ours are known as down members too
+        let own_addr = self.identity.addr();
+        self.members.choose_down_members_if(
+            num_members,
+            &mut self.choice_buf,
+            &mut self.rng,
+            |member| member.addr() != own_addr,
+        );
 
         while let Some(chosen) = self.choice_buf.pop() {
             self.send_message(chosen.into_identity(), Message::Announce, &mut runtime)?;
diff --git a/src/member.rs b/src/member.rs
index 3c0daa1..42fb274 100644
--- a/src/member.rs
+++ b/src/member.rs
@@ -240,13 +240,28 @@ where
         }
     }
 
+    #[cfg(test)]
     pub(crate) fn choose_down_members(
         &self,
         wanted: usize,
         output: &mut Vec<Member<T>>,
         rng: impl Rng,
     ) {
-        self.choose_members(wanted, output, rng, |member| !member.is_active());
+        self.choose_down_members_if(wanted, output, rng, |_| true);
+    }
+
+    pub(crate) fn choose_down_members_if<F>(
+        &self,
+        wanted: usize,
+        output: &mut Vec<Member<T>>,
+        rng: impl Rng,
+        picker: F,
+    ) where
+        F: Fn(&T) -> bool,
+    {
+        self.choose_members(wanted, output, rng, |member| {
+            !member.is_active() && picker(member.id())
+        });
     }
 
     pub(crate) fn choose_active_members<F>(
-- 
2.43.0


From 3422f5c680c6eab3ba96644507da9ba0d34df470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 05/10] fix: resize the send buffer when set_config changes
 max_packet_size

---
 src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index ea3d249..9838ae9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -867,6 +867,11 @@ where
                 "Configuration changed"
             );
 
+            // `send_buf` is always exactly as large as a packet may be
+            if self.config.max_packet_size != config.max_packet_size {
+                self.send_buf = Vec::with_capacity(config.max_packet_size.get());
+            }
+
             self.config = config;
             Ok(())
         }
-- 
2.43.0


From f32302788c59ebb9ce61ac4350566a589134c1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 06/10] fix: reject custom broadcasts that don't fit their u16
 length prefix

---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9838ae9..b55c417 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -599,8 +599,9 @@ where
             return Err(Error::MalformedPacket);
         }
 
-        // Not considering the whole header
-        if data.len() > self.config.max_packet_size.get() {
+        // Not considering the whole header. The length prefix of an item is
+        // an u16, so larger ones can't be sent no matter the packet size
+        if data.len() > self.config.max_packet_size.get() || data.len() > u16::MAX.into() {
             return Err(Error::DataTooBig);
         }
 
-- 
2.43.0


From 24a136995f44e7a8e4609a916b378d994a5e4ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 07/10] fix: a Feed never carries more members than its u16
 count can tell

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b55c417..d34323c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1429,7 +1429,8 @@ where
         // so header_len / 2 is good enough for identity_len
         let identity_len = { self.config.max_packet_size.get().saturating_sub(remaining) / 2 };
         // and we always answer at least 5, in case the estimation is bonkers
-        usize::max(remaining / identity_len, 5)
+        // (but never more than the u16 that counts them can hold)
+        usize::clamp(remaining / identity_len, 5, u16::MAX.into())
     }
 
     fn send_message(
-- 
2.43.0


From 43860d1675feaf2fc7579b53c0db16885dbb6f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 08/10] fix: defunct members must not answer TurnUndead with
 TurnUndead

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index d34323c..0abd80c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -981,6 +981,12 @@ where
             // that foca forgets the down member (`Config::remove_down_after`)
             if message == Message::TurnUndead {
                 self.handle_self_update(Incarnation::default(), State::Down, &mut runtime)?;
+
+                // Both are down and we're unable to rejoin: telling them so
+                // would only make them do the very same thing, endlessly
+                if self.connection_state == ConnectionState::Undead {
+                    return Ok(());
+                }
             }
 
             if self.config.notify_down_members {
-- 
2.43.0


From 47f899a3c8a38cfe2c45c966302c1b2bd21ac434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:24 +0000
Subject: [PATCH 09/10] fix: a defunct instance neither refutes suspicions nor
 rejoins by itself

After leave_cluster an instance would still gossip a refutation when
suspected, so a member that never got the Down update would keep it
as alive forever; and, with a renewable identity, it'd rejoin (and
answer probes) as soon as it heard about its own departure.
---
 src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0abd80c..8202ba2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1642,8 +1642,11 @@ where
                 //
                 // But since the cluster is chatting about us possibly being
                 // down, we'll send a few updates around in order to help
-                // disseminate the refutation
-                self.gossip(runtime)?;
+                // disseminate the refutation- unless we're already known
+                // as down: that's not something we can refute
+                if self.connection_state != ConnectionState::Undead {
+                    self.gossip(runtime)?;
+                }
             }
             State::Alive => {
                 // The cluster is talking about our liveness. Nothing to do.
@@ -1660,6 +1663,12 @@ where
     }
 
     fn attempt_rejoin(&mut self, mut runtime: impl Runtime<T>) -> Result<bool> {
+        // Either we've left the cluster or rejoining isn't possible.
+        // Only manual intervention gets us out of this state
+        if self.connection_state == ConnectionState::Undead {
+            return Ok(false);
+        }
+
         if let Some(new_identity) = self.identity.renew() {
             if self.identity == new_identity {
                 #[cfg(feature = "tracing")]
-- 
2.43.0


From 2fa76cca4607cc3bfb3244b1bc742423a9da9cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:24 +0000
Subject: [PATCH 10/10] fix: announce after rejoining

The gossip sent when rejoining is addressed to the identities we know
about. When members rejoin simultaneously these are already abandoned,
so every datagram is discarded and, since an instance that changed its
identity stays silent until it hears back, nobody ever recovers.
Announce messages are accepted by address.
---
 src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 8202ba2..016a890 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1685,6 +1685,15 @@ where
             } else {
                 self.change_identity(new_identity.clone(), &mut runtime)?;
 
+                // The members we know about might be rejoining right now
+                // too, so what we just sent may be addressed to identities
+                // already abandoned. Announces get through regardless
+                self.choose_and_send(
+                    self.config.num_indirect_probes.get(),
+                    Message::Announce,
+                    &mut runtime,
+                )?;
+
                 runtime.notify(Notification::Rejoin(&new_identity));
 
                 Ok(true)
-- 
2.43.0

