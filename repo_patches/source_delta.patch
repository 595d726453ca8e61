From bbe01c2684e80cb77ae75fe58413ec864c7d1609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:21 +0000
Subject: [PATCH 01/13] fix: accept valid per-message skipped key limits

Operator precedence made the upper bound check reject every nonzero
per-message limit, including those within the documented range.
---
 omemo/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omemo/backend.py b/omemo/backend.py
index 2e15ebc..cd2c4bc 100644
--- a/omemo/backend.py
+++ b/omemo/backend.py
@@ -111,7 +111,7 @@ class Backend(ABC):
                 " skipped keys to keep is nonzero."
             )
 
-        if max_num_per_message_skipped_keys or 0 > max_num_per_session_skipped_keys:
+        if (max_num_per_message_skipped_keys or 0) > max_num_per_session_skipped_keys:
             raise ValueError(
                 "The number of allowed per-message skipped keys must not be greater than the number of"
                 " per-session skipped keys to keep."
-- 
2.43.0


From 0ede7f67ec84102b9c11c4ffa13e25a4bd80c833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:22 +0000
Subject: [PATCH 02/13] fix: don't overwrite the storage cache with stale
 loaded values

A store/delete that completed while a load of the same key was still
running had its cache entry replaced with the outdated loaded value.
---
 omemo/storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omemo/storage.py b/omemo/storage.py
index 4f344c3..75b5ba4 100644
--- a/omemo/storage.py
+++ b/omemo/storage.py
@@ -249,7 +249,8 @@ class Storage(ABC):
 
         value = await self._load(key)
         if self.__cache is not None:
-            self.__cache[key] = value
+            # Don't replace a newer value that was stored (or deleted) while the loading operation was running
+            return self.__cache.setdefault(key, value)
         return value
 
     async def store(self, key: str, value: JSONType) -> None:
-- 
2.43.0


From 1ecd3a45b46499e2213d65542d22c1acbc948114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:22 +0000
Subject: [PATCH 03/13] fix: keep doubling the bundle upload retry delay

The delay was reset to one minute on each attempt, thus the back-off
after signed pre key rotation never took effect.
---
 omemo/session_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index c5fc7d3..2c71989 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -676,8 +676,8 @@ class SessionManager(ABC):
 
                     # Rotate the signed pre if necessary
                     await backend.rotate_signed_pre_key()
+                    retry_delay = 60  # Start with one minute of retry delay
                     while True:
-                        retry_delay = 60  # Start with one minute of retry delay
                         try:
                             await self._upload_bundle(await backend.get_bundle(
                                 self.__own_bare_jid,
-- 
2.43.0


From 01044a8f3723bccd3fdb139ff112283dbda0bdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:22 +0000
Subject: [PATCH 04/13] fix: don't republish a backend purged during an upload
 retry

The signed pre key rotation kept working on the list of backends from
before the purge, re-creating and uploading the bundle of a backend that
was purged while a failed bundle upload was waiting to be retried.
---
 omemo/session_manager.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 2c71989..91921a5 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -665,6 +665,10 @@ class SessionManager(ABC):
 
             # For each backend, check whether the signed pre key is due for rotation
             for backend in self.__backends:
+                # The backend might have been purged while waiting for another bundle upload to succeed
+                if backend not in self.__backends:
+                    continue
+
                 signed_pre_key_age = await backend.signed_pre_key_age()
                 next_rotation = signed_pre_key_rotation_period - signed_pre_key_age
 
@@ -677,7 +681,7 @@ class SessionManager(ABC):
                     # Rotate the signed pre if necessary
                     await backend.rotate_signed_pre_key()
                     retry_delay = 60  # Start with one minute of retry delay
-                    while True:
+                    while backend in self.__backends:
                         try:
                             await self._upload_bundle(await backend.get_bundle(
                                 self.__own_bare_jid,
-- 
2.43.0


From 3d2948a6b61ab5ddcf6d132d0c37a4a3086c093d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:47 +0000
Subject: [PATCH 05/13] fix: only build sessions with the identity key on
 record

Trust is assigned to the identity key recorded for a device, but active
session building accepted any bundle offered for the device id. A bundle
with a different identity key thus received messages encrypted under the
trust of the recorded one.
---
 omemo/session_manager.py | 41 ++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 91921a5..adb7fd5 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -1239,15 +1239,24 @@ class SessionManager(ABC):
                     # Prepare an empty message
                     content, plain_key_material = await backend.encrypt_empty()
 
+                    bundle = await self._download_bundle(
+                        backend.namespace,
+                        device.bare_jid,
+                        device.device_id
+                    )
+
+                    # The new session must belong to the identity key that trust is assigned to
+                    if bundle.identity_key != device.identity_key:
+                        raise KeyExchangeFailed(
+                            "The identity key of the bundle does not match the identity key known for the"
+                            " device."
+                        )
+
                     # Build a new session to replace the old one
                     session, encrypted_key_material = await backend.build_session_active(
                         device.bare_jid,
                         device.device_id,
-                        await self._download_bundle(
-                            backend.namespace,
-                            device.bare_jid,
-                            device.device_id
-                        ),
+                        bundle,
                         plain_key_material
                     )
 
@@ -1899,15 +1908,27 @@ class SessionManager(ABC):
                 logging.getLogger(SessionManager.LOG_TAG).debug(f"Cached bundle: {bundle}")
 
                 try:
+                    # Make sure the bundle required to build a session is available, and that it belongs to
+                    # the identity key that trust is assigned to
+                    if session is None:
+                        if bundle is None:
+                            bundle = await self._download_bundle(
+                                backend.namespace,
+                                device.bare_jid,
+                                device.device_id
+                            )
+
+                        if bundle.identity_key != device.identity_key:
+                            raise KeyExchangeFailed(
+                                "The identity key of the bundle does not match the identity key known for the"
+                                " device."
+                            )
+
                     # Build the session if necessary, and encrypt the key material
                     session, encrypted_key_material = await backend.build_session_active(
                         device.bare_jid,
                         device.device_id,
-                        await self._download_bundle(
-                            backend.namespace,
-                            device.bare_jid,
-                            device.device_id
-                        ) if bundle is None else bundle,
+                        cast(Bundle, bundle),
                         plain_key_material
                     ) if session is None else (session, await backend.encrypt_key_material(
                         session,
-- 
2.43.0


From f159f5aeccac8aa8ed56baf08863aacac186b562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:47 +0000
Subject: [PATCH 06/13] fix: skip unknown namespaces when looking for identity
 keys

Bundle downloads only have to be supported for loaded backends, but a
device known from a backend that is not loaded any more made gathering
device information fail with UnknownNamespace, and with it encryption,
decryption and loading of the library.
---
 omemo/session_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index adb7fd5..c1a974f 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -1446,7 +1446,8 @@ class SessionManager(ABC):
                             f" namespace {namespace}.",
                             exc_info=True
                         )
-                    except BundleNotFound:
+                    except (BundleNotFound, UnknownNamespace):
+                        # The namespace can be unknown if the corresponding backend is not loaded any more
                         logging.getLogger(SessionManager.LOG_TAG).warning(
                             f"Bundle not available for device {device_id} of bare JID {bare_jid} for"
                             f" namespace {namespace}.",
-- 
2.43.0


From 98d7a4ab917810d23747881ae7153d0450bbab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:47 +0000
Subject: [PATCH 07/13] fix: persist the session before sending an empty
 message

If sending failed or the application was stopped right after sending,
the next message was encrypted with a message key that had been used
already, and could not be decrypted by the recipient.
---
 omemo/session_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index c1a974f..0968f41 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -1652,6 +1652,9 @@ class SessionManager(ABC):
 
         content, plain_key_material = await backend.encrypt_empty()
         encrypted_key_material = await backend.encrypt_key_material(session, plain_key_material)
+
+        # Persist the session before sending, to never use the same message key twice
+        await backend.store_session(session)
         await self._send_message(Message(
             backend.namespace,
             self.__own_bare_jid,
@@ -1663,7 +1666,6 @@ class SessionManager(ABC):
                 else None
             )) })
         ), session.bare_jid)
-        await backend.store_session(session)
 
     async def encrypt(
         self,
-- 
2.43.0


From 44cc98e659701e5eff1fc516297698b5d3c747dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:28 +0000
Subject: [PATCH 08/13] fix: keep unsent empty messages queued after history
 sync

The queue was deleted before sending, so that a single sending failure
silently dropped the queued messages of all other sessions too.
---
 omemo/session_manager.py | 61 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 54 insertions(+), 7 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 0968f41..3301b76 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -1593,11 +1593,12 @@ class SessionManager(ABC):
         for backend in self.__backends:
             await backend.delete_hidden_pre_keys()
 
-        # Send empty messages that were queued while in history synchronization mode
+        # Send empty messages that were queued while in history synchronization mode. Messages are only removed
+        # from the queue once they were sent, and a failure must not prevent the other messages from being sent.
+        sending_failure: Optional[MessageSendingFailed] = None
         for backend in self.__backends:
-            # Load and delete the list of bare JIDs that have queued empty messages for this backend
+            # Load the list of bare JIDs that have queued empty messages for this backend
             queued_jids = frozenset((await storage.load_list(f"/queue/{backend.namespace}", str)).maybe([]))
-            await storage.delete(f"/queue/{backend.namespace}")
 
             logging.getLogger(SessionManager.LOG_TAG).debug(
                 f"Bare JIDs for which empty messages are queued for namespace {backend.namespace}:"
@@ -1605,13 +1606,12 @@ class SessionManager(ABC):
             )
 
             for bare_jid in queued_jids:
-                # For each queued bare JID, load and delete the list of devices that have queued an empty
-                # message for this backend
+                # For each queued bare JID, load the list of devices that have queued an empty message for
+                # this backend
                 queued_device_ids = frozenset((await storage.load_list(
                     f"/queue/{backend.namespace}/{bare_jid}",
                     int
                 )).maybe([]))
-                await storage.delete(f"/queue/{backend.namespace}/{bare_jid}")
 
                 logging.getLogger(SessionManager.LOG_TAG).debug(f"Queued device ids: {queued_device_ids}")
 
@@ -1625,10 +1625,57 @@ class SessionManager(ABC):
                     else:
                         # It is theoretically possible that the session has been deleted after an empty
                         # message was queued for it.
-                        await self.__send_empty_message(backend, session)
+                        try:
+                            await self.__send_empty_message(backend, session)
+                        except MessageSendingFailed as e:
+                            logging.getLogger(SessionManager.LOG_TAG).warning(
+                                f"Sending queued empty message failed for device {device_id} of bare JID"
+                                f" {bare_jid} for namespace {backend.namespace}. Keeping it in the queue.",
+                                exc_info=True
+                            )
+                            sending_failure = e
+                            continue
+
+                    await self.__remove_from_queue(backend.namespace, bare_jid, frozenset({ device_id }))
+
+        if sending_failure is not None:
+            raise sending_failure
 
         logging.getLogger(SessionManager.LOG_TAG).debug("History synchronization mode exited.")
 
+    async def __remove_from_queue(self, namespace: str, bare_jid: str, device_ids: FrozenSet[int]) -> None:
+        """
+        Internal helper to remove devices from the queue of empty messages.
+
+        Args:
+            namespace: The namespace of the backend the empty messages are queued for.
+            bare_jid: The bare JID the devices belong to.
+            device_ids: The ids of the devices to remove from the queue.
+        """
+
+        storage = self.__storage
+
+        remaining_device_ids = frozenset((await storage.load_list(
+            f"/queue/{namespace}/{bare_jid}",
+            int
+        )).maybe([])) - device_ids
+
+        if len(remaining_device_ids) > 0:
+            await storage.store(f"/queue/{namespace}/{bare_jid}", list(remaining_device_ids))
+            return
+
+        await storage.delete(f"/queue/{namespace}/{bare_jid}")
+
+        remaining_jids = frozenset((await storage.load_list(
+            f"/queue/{namespace}",
+            str
+        )).maybe([])) - frozenset({ bare_jid })
+
+        if len(remaining_jids) > 0:
+            await storage.store(f"/queue/{namespace}", list(remaining_jids))
+        else:
+            await storage.delete(f"/queue/{namespace}")
+
     ######################
     # en- and decryption #
     ######################
-- 
2.43.0


From 045093e41ebb76fc8b51de5ba5d97251062da8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:28 +0000
Subject: [PATCH 09/13] fix: allow an interrupted account purge to be completed

Purging again after a storage failure left trust information behind,
because the identity keys it belongs to had been deleted first.
---
 omemo/session_manager.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 3301b76..61ab4e5 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -598,6 +598,13 @@ class SessionManager(ABC):
             except NothingException:
                 pass
 
+        # Delete information about the identity keys. Done first, since the identity keys are only known as long
+        # as the information about the devices is available.
+        for identity_key in identity_keys:
+            await storage.delete(
+                f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}"
+            )
+
         # Delete information about the individual devices
         for device_id in device_list:
             await storage.delete(f"/devices/{bare_jid}/{device_id}/namespaces")
@@ -608,12 +615,6 @@ class SessionManager(ABC):
         # Delete the device list
         await storage.delete(f"/devices/{bare_jid}/list")
 
-        # Delete information about the identity keys
-        for identity_key in identity_keys:
-            await storage.delete(
-                f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}"
-            )
-
         # Remove backend-specific data
         for backend in self.__backends:
             await backend.purge_bare_jid(bare_jid)
-- 
2.43.0


From 47813e3bb46937ab9a716552a5a38679c6cbe5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:28 +0000
Subject: [PATCH 10/13] fix: include queued empty messages when purging

Purging an account or a loaded backend left the bare JIDs and device ids
of queued empty messages behind in the storage.
---
 omemo/session_manager.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 61ab4e5..f4cd3e4 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -563,6 +563,11 @@ class SessionManager(ABC):
                 "The backend to purge is currently loaded. Purging backend-specific offline data in addition"
                 " to the online data."
             )
+            # Remove queued empty messages
+            for bare_jid in (await self.__storage.load_list(f"/queue/{namespace}", str)).maybe([]):
+                await self.__storage.delete(f"/queue/{namespace}/{bare_jid}")
+            await self.__storage.delete(f"/queue/{namespace}")
+
             await purged_backend.purge()
 
         # Second half of online data removal: delete the bundle of this device. This step has low priority,
@@ -615,6 +620,13 @@ class SessionManager(ABC):
         # Delete the device list
         await storage.delete(f"/devices/{bare_jid}/list")
 
+        # Remove queued empty messages
+        for backend in self.__backends:
+            await self.__remove_from_queue(backend.namespace, bare_jid, frozenset((await storage.load_list(
+                f"/queue/{backend.namespace}/{bare_jid}",
+                int
+            )).maybe([])))
+
         # Remove backend-specific data
         for backend in self.__backends:
             await backend.purge_bare_jid(bare_jid)
-- 
2.43.0


From 067e1f1acaaaee5b0bd449d7046610be21a37459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:49 +0000
Subject: [PATCH 11/13] fix: resume an interrupted creation when the library is
 loaded again

The device id and the namespaces of the loaded backends were stored
before the respective data was published. If publishing failed or was
interrupted, loading the library again succeeded without ever generating
pre keys, uploading bundles or adding this device to the device lists.
Likewise, a failed removal of the online data of a backend that is not
loaded any more was never attempted again.
---
 omemo/session_manager.py | 46 ++++++++--------------------------------
 1 file changed, 9 insertions(+), 37 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index f4cd3e4..61a0a8f 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -376,16 +376,10 @@ class SessionManager(ABC):
             ))
             logging.getLogger(SessionManager.LOG_TAG).debug(f"Generated device id: {self.__own_device_id}")
 
-            # Store the device information for this device
-            await storage.store(
-                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/namespaces",
-                [ backend.namespace for backend in self.__backends ]
-            )
-
-            await storage.store(
-                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/active",
-                { backend.namespace: True for backend in self.__backends }
-            )
+            # Store the device information for this device. The namespaces are added below, each one as soon as
+            # the data of the respective backend is published.
+            await storage.store(f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/namespaces", [])
+            await storage.store(f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/active", {})
 
             await storage.store(
                 f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label",
@@ -415,19 +409,6 @@ class SessionManager(ABC):
             # Finally store the device id once the other setup is done
             await self.__storage.store("/own_device_id", self.__own_device_id)
 
-            # Generate the first 100 pre keys for each backend
-            for backend in self.__backends:
-                await backend.generate_pre_keys(100)
-
-            # Publish the bundles for all backends
-            for backend in self.__backends:
-                await self._upload_bundle(await backend.get_bundle(self.__own_bare_jid, self.__own_device_id))
-
-            # Trigger a refresh of the own device lists for all backends, this will result in this device
-            # being added to the lists and the lists republished.
-            for backend in self.__backends:
-                await self.refresh_device_list(backend.namespace, self.__own_bare_jid)
-
         # If there a mismatch between loaded and active namespaces, look for changes in the loaded backends.
         device, _ = await self.get_own_device_information()
         loaded_namespaces = frozenset(backend.namespace for backend in self.__backends)
@@ -438,19 +419,9 @@ class SessionManager(ABC):
                 f" {loaded_namespaces} vs. {active_namespaces} (now vs. previous run)"
             )
 
-            # Set the device active for all loaded namespaces
-            await storage.store(
-                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/active",
-                { namespace: True for namespace in loaded_namespaces }
-            )
-
-            # Store the updated list of loaded namespaces
-            await storage.store(
-                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/namespaces",
-                list(loaded_namespaces)
-            )
-
-            # Take care of the initialization of newly added backends
+            # Take care of the initialization of newly added backends (on the first run, those are all backends).
+            # The stored list of namespaces is updated last for each backend, thus an interrupted initialization
+            # is resumed the next time the library is loaded.
             for backend in self.__backends:
                 if backend.namespace not in active_namespaces:
                     # Refill pre keys if necessary
@@ -465,7 +436,8 @@ class SessionManager(ABC):
                     ))
 
                     # Trigger a refresh of the own device list of the new backend, this will result in this
-                    # device being added to the lists and the lists republished.
+                    # device being added to the lists and the lists republished, and in the namespace being
+                    # added to the stored information about this device.
                     await self.refresh_device_list(backend.namespace, self.__own_bare_jid)
 
             # Perform cleanup of removed backends
-- 
2.43.0


From 34092d7690f6e594ad79c8f303a3b236a4aa408b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:23 +0000
Subject: [PATCH 12/13] fix: don't rely on the storage cache after a failed or
 cancelled write

---
 omemo/storage.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/omemo/storage.py b/omemo/storage.py
index 75b5ba4..7006e97 100644
--- a/omemo/storage.py
+++ b/omemo/storage.py
@@ -188,6 +188,7 @@ class Storage(ABC):
         """
 
         self.__cache: Optional[Dict[str, Maybe[JSONType]]] = None if disable_cache else {}
+        self.__failed_writes = 0
 
     @abstractmethod
     async def _load(self, key: str) -> Maybe[JSONType]:
@@ -247,8 +248,12 @@ class Storage(ABC):
         if self.__cache is not None and key in self.__cache:
             return self.__cache[key]
 
+        failed_writes = self.__failed_writes
         value = await self._load(key)
         if self.__cache is not None:
+            if self.__failed_writes != failed_writes:
+                # The loaded value might be outdated, don't cache it
+                return self.__cache.get(key, value)
             # Don't replace a newer value that was stored (or deleted) while the loading operation was running
             return self.__cache.setdefault(key, value)
         return value
@@ -265,7 +270,15 @@ class Storage(ABC):
             StorageException: if any kind of storage operation failed. Forwarded from :meth:`_store`.
         """
 
-        await self._store(key, value)
+        try:
+            await self._store(key, value)
+        except BaseException:
+            # The operation may have had its effect before it failed or was cancelled, thus the cached value can't
+            # be relied on any more.
+            self.__failed_writes += 1
+            if self.__cache is not None:
+                self.__cache.pop(key, None)
+            raise
 
         if self.__cache is not None:
             self.__cache[key] = Just(value)
@@ -282,7 +295,15 @@ class Storage(ABC):
                 exist. Forwarded from :meth:`_delete`.
         """
 
-        await self._delete(key)
+        try:
+            await self._delete(key)
+        except BaseException:
+            # The operation may have had its effect before it failed or was cancelled, thus the cached value can't
+            # be relied on any more.
+            self.__failed_writes += 1
+            if self.__cache is not None:
+                self.__cache.pop(key, None)
+            raise
 
         if self.__cache is not None:
             self.__cache[key] = Nothing()
-- 
2.43.0


From 16ed1a6d84761c18e19554bf0d0760040d1676a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:36 +0000
Subject: [PATCH 13/13] fix: a load overlapping a failed write could make later
 loads go back in time

---
 omemo/storage.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/omemo/storage.py b/omemo/storage.py
index 7006e97..9822a01 100644
--- a/omemo/storage.py
+++ b/omemo/storage.py
@@ -251,9 +251,10 @@ class Storage(ABC):
         failed_writes = self.__failed_writes
         value = await self._load(key)
         if self.__cache is not None:
-            if self.__failed_writes != failed_writes:
-                # The loaded value might be outdated, don't cache it
-                return self.__cache.get(key, value)
+            # The loaded value might be outdated if a write failed meanwhile, load it again
+            while self.__failed_writes != failed_writes and key not in self.__cache:
+                failed_writes = self.__failed_writes
+                value = await self._load(key)
             # Don't replace a newer value that was stored (or deleted) while the loading operation was running
             return self.__cache.setdefault(key, value)
         return value
-- 
2.43.0

