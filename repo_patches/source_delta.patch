From a0e426d93b75be7c2866d5a7852fb2f015d56277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:37 +0000
Subject: [PATCH 01/46] fix: trap on access to the last address of a byte-paged
 memory

With the custom page size 1, an access whose last byte is 0xffffffff made
the page count computation wrap to zero. The bounds check then passed for
any memory size and the access was performed outside of the memory.
---
 lib/exec_insn_subr.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/exec_insn_subr.c b/lib/exec_insn_subr.c
index 1ce6f5d..245267b 100644
--- a/lib/exec_insn_subr.c
+++ b/lib/exec_insn_subr.c
@@ -74,8 +74,7 @@ memory_instance_getptr2(struct meminst *meminst, uint32_t ptr, uint32_t offset,
         }
         if (__predict_false(last_byte >= meminst->allocated)) {
                 const uint32_t page_shift = memtype_page_shift(meminst->type);
-                uint32_t need_in_pages = (last_byte >> page_shift) + 1;
-                if (need_in_pages > meminst->size_in_pages) {
+                if (last_byte >> page_shift >= meminst->size_in_pages) {
 do_trap:
                         return ETOYWASMTRAP;
                 }
-- 
2.43.0


From 59cf4b25b15348929e8bfa7777275d7a851dbfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:12 +0000
Subject: [PATCH 02/46] fix: evaluate element expressions of table.init in
 their own context

---
 lib/exec_insn_subr.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/exec_insn_subr.c b/lib/exec_insn_subr.c
index 245267b..08709f2 100644
--- a/lib/exec_insn_subr.c
+++ b/lib/exec_insn_subr.c
@@ -273,8 +273,16 @@ table_init(struct exec_context *ectx, uint32_t tableidx, uint32_t elemidx,
                         val.u.funcref.func =
                                 VEC_ELEM(inst->funcs, elem->funcs[s + i]);
                 } else {
+                        /*
+                         * use a separate context because ectx might be
+                         * in the middle of the execution of a function.
+                         */
+                        struct exec_context ctx;
+                        exec_context_init(&ctx, ectx->instance,
+                                          exec_mctx(ectx));
                         ret = exec_const_expr(&elem->init_exprs[s + i],
-                                              elem->type, &val, ectx);
+                                              elem->type, &val, &ctx);
+                        exec_context_clear(&ctx);
                         if (ret != 0) {
                                 goto fail;
                         }
-- 
2.43.0


From 91e8cae26acbbd6b0a8f7a46ca30a968a39f9786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:40 +0000
Subject: [PATCH 03/46] fix: reject trailing bytes in the data count section

---
 lib/module.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/module.c b/lib/module.c
index 3dcc019..de16fca 100644
--- a/lib/module.c
+++ b/lib/module.c
@@ -1797,7 +1797,7 @@ read_datacount_section(const uint8_t **pp, const uint8_t *ep,
         ctx->has_datacount = true;
         ctx->ndatas_in_datacount = count;
         ret = 0;
-        *pp = ep;
+        *pp = p;
 fail:
         return ret;
 }
-- 
2.43.0


From 3bf9b845f113ec1edf4e2961fbb6101734fd492e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:45 +0000
Subject: [PATCH 04/46] fix: reject functions whose number of parameters and
 locals overflows

---
 lib/expr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/expr.c b/lib/expr.c
index d1363bb..b985a20 100644
--- a/lib/expr.c
+++ b/lib/expr.c
@@ -60,6 +60,10 @@ read_expr_common(const uint8_t **pp, const uint8_t *ep, struct expr *expr,
         vctx->ei = ei = &expr->ei;
         memset(ei, 0, sizeof(*ei));
 
+        if (UINT32_MAX - parameter_types->ntypes < nlocals) {
+                ret = E2BIG;
+                goto fail;
+        }
         uint32_t lsize = parameter_types->ntypes + nlocals;
         ret = VEC_PREALLOC(vctx->mctx, vctx->locals, lsize);
         if (ret != 0) {
-- 
2.43.0


From e323fde53544fefb81707d84b9057600c7417907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:02 +0000
Subject: [PATCH 05/46] fix: compute the size of a shared memory in 64 bits

A shared memory of 65536 pages was created with no storage at all, because
its size in bytes was computed with a 32-bit shift.
---
 lib/instance.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/instance.c b/lib/instance.c
index 4d9ff3c..1b314b4 100644
--- a/lib/instance.c
+++ b/lib/instance.c
@@ -185,7 +185,8 @@ memory_instance_create(struct mem_context *mctx, struct meminst **mip,
                 uint32_t need_in_pages = mt->lim.min;
 #endif /* defined(TOYWASM_PREALLOC_SHARED_MEMORY) */
                 uint32_t page_shift = memtype_page_shift(mt);
-                uint64_t need_in_bytes = need_in_pages << page_shift;
+                uint64_t need_in_bytes = (uint64_t)need_in_pages
+                                         << page_shift;
                 if (need_in_bytes > SIZE_MAX) {
                         ret = EOVERFLOW;
                         goto fail1;
-- 
2.43.0


From 5a9e11190981d5b9c8b28f85e2d581edf87d810d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:02 +0000
Subject: [PATCH 06/46] fix: don't free a provided shared memory twice on
 failure

When a later memory could not be created, the last one stored in the import
object was destroyed with the object and then once more.
---
 lib/shared_memory.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/shared_memory.c b/lib/shared_memory.c
index 8cfa04d..f9758c3 100644
--- a/lib/shared_memory.c
+++ b/lib/shared_memory.c
@@ -67,6 +67,7 @@ create_satisfying_shared_memories(struct mem_context *mctx,
                 e->name = &im->name;
                 e->type = EXTERNTYPE_MEMORY;
                 e->u.mem = mi;
+                mi = NULL;
         }
 
         *imop = imo;
-- 
2.43.0


From baf9578c5b7dc6370dd2e8236b9c3fb85a21cb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:09:42 +0000
Subject: [PATCH 07/46] fix: allow the resuming thread to leave before parked
 threads wake up

A thread which grew a shared memory can end before the threads it suspended
have left the parked state. The assertions in parked() didn't expect that and
aborted the process.
---
 lib/suspend.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/suspend.c b/lib/suspend.c
index 8eb4d4a..6f06bcc 100644
--- a/lib/suspend.c
+++ b/lib/suspend.c
@@ -24,9 +24,9 @@ parked(struct cluster *c) REQUIRES(c->lock)
         xlog_trace("%s: parked %" PRIu32 " / %" PRIu32, __func__, c->nparked,
                    c->nrunners);
         assert(c->nparked > 0);
-        assert(c->nrunners > c->nparked);
+        /* Note: the thread which resumed us might have left already. */
+        assert(c->nrunners >= c->nparked);
         c->nparked--;
-        assert(c->nrunners != c->nparked + 1);
         assert(c->suspend_state == SUSPEND_STATE_RESUMING);
         if (c->nparked == 0) {
                 c->suspend_state = SUSPEND_STATE_NONE;
-- 
2.43.0


From 33f50f197aacdd4bf7b1c540f9b04e69c92b4164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:09:42 +0000
Subject: [PATCH 08/46] fix: update the size of a grown memory before resuming
 other threads

Otherwise, they can find more memory allocated than the memory's size, which
is an assertion failure in memory_instance_getptr2.
---
 lib/exec_insn_subr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/exec_insn_subr.c b/lib/exec_insn_subr.c
index 08709f2..5a65a93 100644
--- a/lib/exec_insn_subr.c
+++ b/lib/exec_insn_subr.c
@@ -518,6 +518,7 @@ retry:
                                 mi->data = np;
                                 assert(new_size_in_bytes > mi->allocated);
                                 mi->allocated = new_size_in_bytes;
+                                mi->size_in_pages = new_size;
                         }
                 }
 #if defined(TOYWASM_ENABLE_WASM_THREADS)
-- 
2.43.0


From 276b3e90f38e3e73380a49af65fce334acae32c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:10:56 +0000
Subject: [PATCH 09/46] fix: resume other threads before retrying to grow a
 shared memory

When two threads grew a shared memory at the same time, the second one tried
to suspend the others while it had them suspended already, and deadlocked.
---
 lib/exec_insn_subr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/exec_insn_subr.c b/lib/exec_insn_subr.c
index 5a65a93..d70d044 100644
--- a/lib/exec_insn_subr.c
+++ b/lib/exec_insn_subr.c
@@ -497,6 +497,7 @@ retry:
                         suspend_threads(c);
                         memory_lock(mi);
                         if (mi->size_in_pages != orig_size) {
+                                resume_threads(c);
                                 goto retry;
                         }
                         assert((mi->allocated % (1 << page_shift)) == 0);
-- 
2.43.0


From 055705496ddd913e4f52842089508ae00c8de2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:31:13 +0000
Subject: [PATCH 10/46] fix: write empty element segments and element
 expressions

module_write aborted on element segments without elements and on
segments which consist of element expressions.
---
 lib/module_writer.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/module_writer.c b/lib/module_writer.c
index 9244cf7..e6284f3 100644
--- a/lib/module_writer.c
+++ b/lib/module_writer.c
@@ -280,7 +280,8 @@ write_element(struct writer *w, const struct element *e)
         /* suppress warnings */
         type = 0;
 #endif
-        if (e->funcs != NULL) {
+        if (e->funcs != NULL ||
+            (e->init_size == 0 && e->type == TYPE_funcref)) {
                 switch (e->mode) {
                 case ELEM_MODE_ACTIVE: /* 0, 2 */
                         if (e->table != 0 || e->type != TYPE_funcref) {
@@ -298,7 +299,7 @@ write_element(struct writer *w, const struct element *e)
                         break;
                 }
         } else {
-                assert(e->init_exprs != NULL);
+                assert(e->init_exprs != NULL || e->init_size == 0);
                 /* 4, 5, 6, 7 */
                 switch (e->mode) {
                 case ELEM_MODE_ACTIVE: /* 4, 6 */
@@ -378,6 +379,7 @@ write_element(struct writer *w, const struct element *e)
                 for (i = 0; i < e->init_size; i++) {
                         write_expr(w, &e->init_exprs[i]);
                 }
+                break;
         default:
                 assert(0);
         }
-- 
2.43.0


From f2ccff1fa7bf880e15dcf3477e65c87ce27aa5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:31:13 +0000
Subject: [PATCH 11/46] fix: write imports and exports of tags

module_write aborted on modules which import or export a tag.
---
 lib/module_writer.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/module_writer.c b/lib/module_writer.c
index e6284f3..8cf3a01 100644
--- a/lib/module_writer.c
+++ b/lib/module_writer.c
@@ -217,6 +217,11 @@ write_importdesc(struct writer *w, const struct importdesc *desc)
         case 0x03:
                 write_globaltype(w, &desc->u.globaltype);
                 break;
+#if defined(TOYWASM_ENABLE_WASM_EXCEPTION_HANDLING)
+        case 0x04:
+                write_tagtype(w, &desc->u.tagtype);
+                break;
+#endif
         default:
                 assert(0);
         }
@@ -259,6 +264,11 @@ write_exportdesc(struct writer *w, const struct exportdesc *desc)
         case EXTERNTYPE_GLOBAL:
                 WRITE_U8(0x03);
                 break;
+#if defined(TOYWASM_ENABLE_WASM_EXCEPTION_HANDLING)
+        case EXTERNTYPE_TAG:
+                WRITE_U8(0x04);
+                break;
+#endif
         default:
                 assert(0);
         }
-- 
2.43.0


From 0a4fe9fdc1bfcc6612522dfe6c6a8ea443f9f14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:31:13 +0000
Subject: [PATCH 12/46] fix: write modules with empty names and empty data
 segments

fwrite returns 0 for an empty item, which was taken for an I/O error.
---
 lib/module_writer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/module_writer.c b/lib/module_writer.c
index 8cf3a01..b7a509d 100644
--- a/lib/module_writer.c
+++ b/lib/module_writer.c
@@ -50,6 +50,9 @@ write_to_file(struct writer *w, const void *p, size_t sz)
         if (UINT32_MAX - w->size < sz) {
                 w->error = EOVERFLOW;
         }
+        if (sz == 0) {
+                return;
+        }
         size_t result = fwrite(p, sz, 1, w->fp);
         if (result != 1) {
                 w->error = ferror(w->fp);
-- 
2.43.0


From b910adc6bb63866c233d4e033c08de2269d0303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:31:13 +0000
Subject: [PATCH 13/46] fix: write the maximum size of shared memories

A shared memory with the largest possible maximum was written without
any maximum, which is not a valid memory type.
---
 lib/module_writer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/module_writer.c b/lib/module_writer.c
index b7a509d..0613b4b 100644
--- a/lib/module_writer.c
+++ b/lib/module_writer.c
@@ -144,7 +144,8 @@ static void
 write_limits(struct writer *w, const struct limits *lim, uint8_t extra_flags,
              uint8_t shift)
 {
-        if (lim->max == UINT32_MAX) {
+        if (lim->max == UINT32_MAX &&
+            (extra_flags & MEMTYPE_FLAG_SHARED) == 0) {
                 WRITE_U8(0x00 | extra_flags);
                 WRITE_LEB_U32(lim->min);
         } else {
-- 
2.43.0


From e3d8f2df79b44960e6e3ce1f9dc451388bc52ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:45 +0000
Subject: [PATCH 14/46] fix: reject name sections with duplicate subsections

The order of the subsections was not checked because the previous id was
never recorded. A duplicate subsection leaked the names of the first one
and failed an assertion.
---
 lib/name.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/name.c b/lib/name.c
index 4df6a38..177aadd 100644
--- a/lib/name.c
+++ b/lib/name.c
@@ -139,6 +139,7 @@ parse_name_section(struct nametable *table, const struct module *m)
                         ret = EINVAL;
                         goto fail;
                 }
+                prev = (int)name_type;
                 ret = read_leb_u32(&p, ep, &name_payload_len);
                 if (ret != 0) {
                         goto fail;
-- 
2.43.0


From 4c7c02b46784ef14493e1ac059eb34a28b914ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:41 +0000
Subject: [PATCH 15/46] fix: do not close the host descriptor of a directory
 twice

closedir closes the descriptor the stream was made from.
The explicit close before it let closedir close an unrelated
descriptor which happened to have got the same number.
---
 libwasi/wasi_host_fdop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libwasi/wasi_host_fdop.c b/libwasi/wasi_host_fdop.c
index 5ddfad0..6e8661e 100644
--- a/libwasi/wasi_host_fdop.c
+++ b/libwasi/wasi_host_fdop.c
@@ -315,7 +315,7 @@ wasi_host_fd_close(struct wasi_fdinfo *fdinfo)
 #if defined(__wasi__) /* wasi has no dup */
         if (hostfd != -1 && hostfd >= 3) {
 #else
-        if (hostfd != -1) {
+        if (hostfd != -1 && fdinfo_host->dir == NULL) {
 #endif
                 ret = close(hostfd);
                 ret = handle_errno(ret);
-- 
2.43.0


From 2bfa5b35d1aef4b618f152879eded341cb27dc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:41 +0000
Subject: [PATCH 16/46] fix: initialise the address length given to accept

---
 libwasi/wasi_host_sockop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libwasi/wasi_host_sockop.c b/libwasi/wasi_host_sockop.c
index 26d3abd..10cef29 100644
--- a/libwasi/wasi_host_sockop.c
+++ b/libwasi/wasi_host_sockop.c
@@ -43,7 +43,7 @@ wasi_host_sock_accept(struct wasi_fdinfo *fdinfo, uint16_t fdflags,
 #if !defined(TOYWASM_OLD_WASI_LIBC)
         struct sockaddr_storage ss;
         struct sockaddr *sa = (void *)&ss;
-        socklen_t salen;
+        socklen_t salen = sizeof(ss);
 #endif
 #if defined(TOYWASM_OLD_WASI_LIBC)
         errno = ENOSYS;
-- 
2.43.0


From 825be5e2e635f2ed062ceedd2969c1a8cc43bc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:41 +0000
Subject: [PATCH 17/46] fix: close the new file when it cannot be added to the
 table

path_open and sock_accept freed the descriptor information while it
still owned the host descriptor and the path.
---
 libwasi/wasi_abi_path.c | 1 +
 libwasi/wasi_abi_sock.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/libwasi/wasi_abi_path.c b/libwasi/wasi_abi_path.c
index ef4b558..297e35f 100644
--- a/libwasi/wasi_abi_path.c
+++ b/libwasi/wasi_abi_path.c
@@ -81,6 +81,7 @@ wasi_path_open(struct exec_context *ctx, struct host_instance *hi,
         }
 fail:
         if (fdinfo != NULL) {
+                wasi_fdinfo_close(fdinfo);
                 wasi_fdinfo_free(fdinfo);
         }
         path_clear(wasi, &pi);
diff --git a/libwasi/wasi_abi_sock.c b/libwasi/wasi_abi_sock.c
index f5f48eb..6c9ceca 100644
--- a/libwasi/wasi_abi_sock.c
+++ b/libwasi/wasi_abi_sock.c
@@ -78,6 +78,7 @@ retry:
         }
 fail:
         if (fdinfo_child != NULL) {
+                wasi_fdinfo_close(fdinfo_child);
                 wasi_fdinfo_free(fdinfo_child);
         }
         wasi_fdinfo_release(wasi, fdinfo);
-- 
2.43.0


From f77fb13d999bc385b6a6326e8432f220d0739abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:41 +0000
Subject: [PATCH 18/46] fix: do not grow the descriptor table in fd_renumber

The target has to be open already, so that there is nothing to grow.
An arbitrary target number made the table grow up to it, and the
largest one wrapped the size calculation around.
---
 libwasi/wasi_abi_fd.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/libwasi/wasi_abi_fd.c b/libwasi/wasi_abi_fd.c
index fa59864..b8b4c03 100644
--- a/libwasi/wasi_abi_fd.c
+++ b/libwasi/wasi_abi_fd.c
@@ -890,12 +890,6 @@ wasi_fd_renumber(struct exec_context *ctx, struct host_instance *hi,
 
         toywasm_mutex_lock(&wasi->lock);
 
-        /* ensure the table size is big enough */
-        ret = wasi_table_expand(wasi, tblidx, wasifd_to);
-        if (ret != 0) {
-                goto fail_locked;
-        }
-
         /* Note: we check "to" first because it can involve a restart */
 
         /*
-- 
2.43.0


From 563412bf54d5f8d4cbc2eb3b45f610c2e1229f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:41 +0000
Subject: [PATCH 19/46] fix: accept fd_renumber of a descriptor to itself

It closed the descriptor and dropped one reference too many.
---
 libwasi/wasi_abi_fd.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libwasi/wasi_abi_fd.c b/libwasi/wasi_abi_fd.c
index b8b4c03..339d168 100644
--- a/libwasi/wasi_abi_fd.c
+++ b/libwasi/wasi_abi_fd.c
@@ -911,6 +911,10 @@ wasi_fd_renumber(struct exec_context *ctx, struct host_instance *hi,
                 goto fail_locked;
         }
 
+        if (fdinfo_from == fdinfo_to) {
+                goto fail_locked;
+        }
+
         /* renumber */
         assert(fdinfo_to->refcount == 2);
         fdinfo_to->refcount--;
-- 
2.43.0


From 75859460c1fc488f73fbba707bf7f12cd99c0ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:41 +0000
Subject: [PATCH 20/46] fix: initialise fdinfo in fd_advise, fd_allocate,
 fd_filestat_set_size

A failed lookup left the variable unset and the error path released it.
---
 libwasi/wasi_abi_fd.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libwasi/wasi_abi_fd.c b/libwasi/wasi_abi_fd.c
index 339d168..cdf8098 100644
--- a/libwasi/wasi_abi_fd.c
+++ b/libwasi/wasi_abi_fd.c
@@ -29,7 +29,7 @@ wasi_fd_advise(struct exec_context *ctx, struct host_instance *hi,
         uint64_t len = HOST_FUNC_PARAM(ft, params, 2, i64);
         uint32_t adv = HOST_FUNC_PARAM(ft, params, 3, i32);
 #endif
-        struct wasi_fdinfo *fdinfo;
+        struct wasi_fdinfo *fdinfo = NULL;
         int ret;
 #if defined(__GNUC__) && !defined(__clang__)
         fdinfo = NULL;
@@ -58,7 +58,7 @@ wasi_fd_allocate(struct exec_context *ctx, struct host_instance *hi,
         uint32_t wasifd = HOST_FUNC_PARAM(ft, params, 0, i32);
         uint64_t offset = HOST_FUNC_PARAM(ft, params, 1, i64);
         uint64_t len = HOST_FUNC_PARAM(ft, params, 2, i64);
-        struct wasi_fdinfo *fdinfo;
+        struct wasi_fdinfo *fdinfo = NULL;
         int ret;
 #if defined(__GNUC__) && !defined(__clang__)
         fdinfo = NULL;
@@ -85,7 +85,7 @@ wasi_fd_filestat_set_size(struct exec_context *ctx, struct host_instance *hi,
         HOST_FUNC_CONVERT_PARAMS(ft, params);
         uint32_t wasifd = HOST_FUNC_PARAM(ft, params, 0, i32);
         uint64_t size = HOST_FUNC_PARAM(ft, params, 1, i64);
-        struct wasi_fdinfo *fdinfo;
+        struct wasi_fdinfo *fdinfo = NULL;
         int ret;
 #if defined(__GNUC__) && !defined(__clang__)
         fdinfo = NULL;
-- 
2.43.0


From 78f2d185ddac4d558e7ac1194bcc6e33cd0af7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:41 +0000
Subject: [PATCH 21/46] fix: initialise path_info in path_create_directory

A failed path conversion left it unset and the error path cleared it.
---
 libwasi/wasi_abi_path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libwasi/wasi_abi_path.c b/libwasi/wasi_abi_path.c
index 297e35f..f7c91ec 100644
--- a/libwasi/wasi_abi_path.c
+++ b/libwasi/wasi_abi_path.c
@@ -139,7 +139,7 @@ wasi_path_create_directory(struct exec_context *ctx, struct host_instance *hi,
         uint32_t pathlen = HOST_FUNC_PARAM(ft, params, 2, i32);
         int host_ret;
         int ret = 0;
-        struct path_info pi;
+        struct path_info pi = PATH_INITIALIZER;
         host_ret = wasi_copyin_and_convert_path(ctx, wasi, dirwasifd, path,
                                                 pathlen, &pi, &ret);
         if (host_ret != 0 || ret != 0) {
-- 
2.43.0


From 2cf55f46a3918a7992b3c1dd30ba2d5b66f88458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:41 +0000
Subject: [PATCH 22/46] fix: notice fstat failures when rejecting directories

The function returns an error number, not -1.
On a failure, an uninitialised file type was looked at.
---
 libwasi/wasi_subr.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/libwasi/wasi_subr.c b/libwasi/wasi_subr.c
index a4fde82..f80d492 100644
--- a/libwasi/wasi_subr.c
+++ b/libwasi/wasi_subr.c
@@ -40,9 +40,7 @@ wasi_userfd_reject_directory(struct wasi_fdinfo *fdinfo)
         int ret;
 
         ret = wasi_vfs_fd_fstat(fdinfo, &st);
-        if (ret == -1) {
-                ret = errno;
-                assert(ret > 0);
+        if (ret != 0) {
                 goto fail;
         }
         if (st.type == WASI_FILETYPE_DIRECTORY) {
-- 
2.43.0


From fec9b73071b3e839ac554fcb4a1a6c351a2ec0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:51 +0000
Subject: [PATCH 23/46] fix: free the unused entry when a host descriptor
 cannot be added

It is not referenced yet, so that it must not be released.
---
 libwasi/wasi.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libwasi/wasi.c b/libwasi/wasi.c
index ee95a84..185b65f 100644
--- a/libwasi/wasi.c
+++ b/libwasi/wasi.c
@@ -117,6 +117,8 @@ wasi_instance_add_hostfd(struct wasi_instance *inst, uint32_t wasmfd,
                 if (ret != 0) {
                         xlog_error("set_nonblocking failed on fd %d with %d",
                                    hostfd, ret);
+                        wasi_fdinfo_free(fdinfo);
+                        fdinfo = NULL;
                         goto fail;
                 }
         }
-- 
2.43.0


From b962cc549ef9db12d18f689f5f097712c70ae621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:11:43 +0000
Subject: [PATCH 24/46] fix: report success of random_get after an interrupted
 host call

The interrupted attempt is repeated but its error was kept.
---
 libwasi/wasi_abi_random.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libwasi/wasi_abi_random.c b/libwasi/wasi_abi_random.c
index 0e7861a..f87ec7a 100644
--- a/libwasi/wasi_abi_random.c
+++ b/libwasi/wasi_abi_random.c
@@ -47,6 +47,7 @@ wasi_random_get(struct exec_context *ctx, struct host_instance *hi,
                         ret = errno;
                         assert(ret > 0);
                         if (ret == EINTR) {
+                                ret = 0;
                                 continue;
                         }
                         break;
-- 
2.43.0


From 2965b02bec4ce9877f43b29348c5ce6c44d605cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:29:07 +0000
Subject: [PATCH 25/46] fix: refuse symbolic link targets with embedded NULs

path_symlink made a link with the part before the NUL. Other path
arguments with a NUL are refused with EINVAL.
---
 libwasi/wasi_abi_path.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libwasi/wasi_abi_path.c b/libwasi/wasi_abi_path.c
index f7c91ec..2a5ea8c 100644
--- a/libwasi/wasi_abi_path.c
+++ b/libwasi/wasi_abi_path.c
@@ -214,6 +214,10 @@ wasi_path_symlink(struct exec_context *ctx, struct host_instance *hi,
                 goto fail;
         }
         target_buf[targetlen] = 0;
+        if (strlen(target_buf) != targetlen) {
+                ret = EINVAL;
+                goto fail;
+        }
         host_ret = wasi_copyin_and_convert_path(ctx, wasi, dirwasifd, path,
                                                 pathlen, &pi, &ret);
         if (host_ret != 0 || ret != 0) {
-- 
2.43.0


From 2d5f0adff0bec488fa25f9961c29831f20aedd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:29:07 +0000
Subject: [PATCH 26/46] fix: do not wrap the size of the copy of a guest string

A length of 0xffffffff made the addition wrap around to an allocation of
no bytes. With a memory of 4 GB the string was then copied to it.
---
 libwasi/wasi_abi_path.c  | 2 +-
 libwasi/wasi_path_subr.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libwasi/wasi_abi_path.c b/libwasi/wasi_abi_path.c
index 2a5ea8c..26e3d4e 100644
--- a/libwasi/wasi_abi_path.c
+++ b/libwasi/wasi_abi_path.c
@@ -203,7 +203,7 @@ wasi_path_symlink(struct exec_context *ctx, struct host_instance *hi,
         struct path_info pi = PATH_INITIALIZER;
         int host_ret = 0;
         int ret = 0;
-        target_buf = malloc(targetlen + 1);
+        target_buf = malloc((size_t)targetlen + 1);
         if (target_buf == NULL) {
                 ret = ENOMEM;
                 goto fail;
diff --git a/libwasi/wasi_path_subr.c b/libwasi/wasi_path_subr.c
index 9bab4b2..9838970 100644
--- a/libwasi/wasi_path_subr.c
+++ b/libwasi/wasi_path_subr.c
@@ -39,7 +39,7 @@ wasi_copyin_and_convert_path(struct exec_context *ctx,
         struct wasi_fdinfo *dirfdinfo = NULL;
         int host_ret = 0;
         int ret = 0;
-        wasmpath = malloc(pathlen + 1);
+        wasmpath = malloc((size_t)pathlen + 1);
         if (wasmpath == NULL) {
                 ret = ENOMEM;
                 goto fail;
-- 
2.43.0


From 9ad44090de54ab90efd36d876f07397083efcf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:29:07 +0000
Subject: [PATCH 27/46] fix: report a host descriptor which cannot be
 duplicated

wasi_instance_add_hostfd installed a descriptor without a host
descriptor. Later use of it by the guest failed an assertion.
---
 libwasi/wasi.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libwasi/wasi.c b/libwasi/wasi.c
index 185b65f..58ff6d8 100644
--- a/libwasi/wasi.c
+++ b/libwasi/wasi.c
@@ -129,12 +129,16 @@ wasi_instance_add_hostfd(struct wasi_instance *inst, uint32_t wasmfd,
 #else
         dupfd = dup(hostfd);
 #endif
-        wasi_fdinfo_to_host(fdinfo)->hostfd = dupfd;
         if (dupfd == -1) {
+                ret = errno;
                 xlog_trace("failed to dup: wasm fd %" PRIu32
                            " host fd %u with errno %d",
-                           wasmfd, hostfd, errno);
+                           wasmfd, hostfd, ret);
+                wasi_fdinfo_free(fdinfo);
+                fdinfo = NULL;
+                goto fail;
         }
+        wasi_fdinfo_to_host(fdinfo)->hostfd = dupfd;
         wasi_table_affix(inst, tblidx, wasmfd, fdinfo);
         fdinfo = NULL;
         ret = 0;
-- 
2.43.0


From 10e84b2a7b14b2bd53460eb2799d8993863dc9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:55:38 +0000
Subject: [PATCH 28/46] fix: convert past times between clocks

The check whether a past time is representable on the other clock was
inverted. A deadline which has passed gave EOVERFLOW, and a deadline before
the epoch of the other clock failed an assertion.
---
 lib/timeutil.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/timeutil.c b/lib/timeutil.c
index cea79cf..0d22a67 100644
--- a/lib/timeutil.c
+++ b/lib/timeutil.c
@@ -228,7 +228,7 @@ convert_timespec(clockid_t from_id, clockid_t to_id,
         } else {
                 struct timespec t;
                 timespec_sub(&from_now, from_ts, &t);
-                if (timespec_cmp(&to_now, &t) > 0) {
+                if (timespec_cmp(&to_now, &t) < 0) {
                         ret = EOVERFLOW;
                         goto fail;
                 }
-- 
2.43.0


From fabecaefc893bd3241cca9367b1939a508743de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:55:52 +0000
Subject: [PATCH 29/46] fix: let poll_oneoff work on a copy of the
 subscriptions

Events which overlap with the subscriptions, or another guest thread,
changed the subscriptions while they were in use. The number of events
then did not match and an assertion failed.
---
 libwasi/wasi_abi_poll.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/libwasi/wasi_abi_poll.c b/libwasi/wasi_abi_poll.c
index 4b5c147..1c0a779 100644
--- a/libwasi/wasi_abi_poll.c
+++ b/libwasi/wasi_abi_poll.c
@@ -26,7 +26,8 @@ wasi_poll_oneoff(struct exec_context *ctx, struct host_instance *hi,
         uint32_t nsubscriptions = HOST_FUNC_PARAM(ft, params, 2, i32);
         uint32_t retp = HOST_FUNC_PARAM(ft, params, 3, i32);
         struct pollfd *pollfds = NULL;
-        const struct wasi_subscription *subscriptions;
+        const struct wasi_subscription *guest_subscriptions;
+        struct wasi_subscription *subscriptions = NULL;
         struct wasi_fdinfo **fdinfos = NULL;
         uint32_t nfdinfos = 0;
         struct wasi_event *events;
@@ -62,7 +63,7 @@ retry:
         if (host_ret != 0) {
                 goto fail;
         }
-        subscriptions = p;
+        guest_subscriptions = p;
         bool moved = false;
         host_ret = host_func_check_align(ctx, out, WASI_EVENT_ALIGN);
         if (host_ret != 0) {
@@ -79,10 +80,16 @@ retry:
         events = p;
         pollfds = calloc(nsubscriptions, sizeof(*pollfds));
         fdinfos = calloc(nsubscriptions, sizeof(*fdinfos));
-        if (pollfds == NULL || fdinfos == NULL) {
+        subscriptions = malloc(insize);
+        if (pollfds == NULL || fdinfos == NULL || subscriptions == NULL) {
                 ret = ENOMEM;
                 goto fail;
         }
+        /*
+         * use a copy because the guest memory can change under us.
+         * eg. the events can overlap with the subscriptions.
+         */
+        memcpy(subscriptions, guest_subscriptions, insize);
         uint32_t i;
         int timeout_ms = -1;
         uint64_t timeout_ns;
@@ -246,6 +253,7 @@ fail:
                                      wasi_convert_errno(ret));
         }
         free(pollfds);
+        free(subscriptions);
         if (!IS_RESTARTABLE(host_ret)) {
                 /*
                  * avoid leaving a stale restart state.
-- 
2.43.0


From 4c9a66dc1d7b77a101847388b0ac46743a79d18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:21:33 +0000
Subject: [PATCH 30/46] fix: report a trapping start function to the caller of
 thread-spawn

When the start function of the instance for a new thread trapped,
thread-spawn tried to convert the internal, negative error number to a
WASI error and ran into an assertion.
---
 libwasi_threads/wasi_threads.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libwasi_threads/wasi_threads.c b/libwasi_threads/wasi_threads.c
index 2035a46..2a21cdc 100644
--- a/libwasi_threads/wasi_threads.c
+++ b/libwasi_threads/wasi_threads.c
@@ -446,6 +446,10 @@ wasi_thread_spawn_common(struct exec_context *ctx,
                 xlog_trace("%s: instance_create failed with %d: %s", __func__,
                            ret, report_getmessage(&report));
                 report_clear(&report);
+                if (ret < 0) {
+                        /* the start function trapped. not an errno. */
+                        ret = ENOEXEC;
+                }
                 goto fail;
         }
         report_clear(&report);
-- 
2.43.0


From 346726e19a12b10cddc53b256394b149120bb9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:21:33 +0000
Subject: [PATCH 31/46] fix: check the dynamic linker's region arithmetic for
 overflows

The sizes and alignments come from the dylink.0 section of the objects.
The sums wrapped around so that regions overlapped, or assertions
failed.
---
 libdyld/dyld.c | 50 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/libdyld/dyld.c b/libdyld/dyld.c
index 28546de..4c3a9ed 100644
--- a/libdyld/dyld.c
+++ b/libdyld/dyld.c
@@ -147,23 +147,31 @@ static const struct globaltype globaltype_i32_const = {
 };
 
 static uint32_t
-align_up(uint32_t v, uint32_t align)
-{
-        uint32_t mask = align - 1;
-        return (v + mask) & ~mask;
-}
-
-static uint32_t
-align_up_log(uint32_t v, uint32_t palign)
+howmany(uint32_t a, uint32_t b)
 {
-        uint32_t align = 1 << palign;
-        return align_up(v, align);
+        return a / b + (a % b != 0);
 }
 
-static uint32_t
-howmany(uint32_t a, uint32_t b)
+/*
+ * find room for sz units with the alignment of (1 << palign) units,
+ * starting at base.
+ */
+static int
+place(uint32_t base, uint32_t palign, uint32_t sz, uint32_t *alignedp,
+      uint32_t *endp)
 {
-        return (a + b - 1) / b;
+        if (palign >= 32) {
+                return EINVAL;
+        }
+        uint64_t mask = ((uint64_t)1 << palign) - 1;
+        uint64_t aligned = (base + mask) & ~mask;
+        uint64_t end = aligned + sz;
+        if (end > UINT32_MAX) {
+                return ENOMEM;
+        }
+        *alignedp = (uint32_t)aligned;
+        *endp = (uint32_t)end;
+        return 0;
 }
 
 static uint32_t
@@ -523,8 +531,12 @@ dyld_allocate_memory(struct dyld *d, uint32_t align, uint32_t sz,
                      uint32_t *resultp)
 {
         uint32_t oldbase = d->memory_base;
-        uint32_t aligned = align_up_log(oldbase, align);
-        uint32_t newbase = aligned + sz;
+        uint32_t aligned;
+        uint32_t newbase;
+        int error = place(oldbase, align, sz, &aligned, &newbase);
+        if (error != 0) {
+                return error;
+        }
         assert(newbase >= oldbase);
         const uint32_t page_size = 1 << memtype_page_shift(d->meminst->type);
         uint32_t oldnpg = howmany(oldbase, page_size);
@@ -547,8 +559,12 @@ dyld_allocate_table(struct dyld *d, uint32_t align, uint32_t sz,
                     uint32_t *resultp)
 {
         uint32_t oldbase = d->table_base;
-        uint32_t aligned = align_up_log(oldbase, align);
-        uint32_t newbase = aligned + sz;
+        uint32_t aligned;
+        uint32_t newbase;
+        int error = place(oldbase, align, sz, &aligned, &newbase);
+        if (error != 0) {
+                return error;
+        }
         assert(newbase >= oldbase);
         if (newbase > oldbase) {
                 uint32_t ret =
-- 
2.43.0


From db150bda0c50c856ba1d5700f0bfcc4d8e07bd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:21:33 +0000
Subject: [PATCH 32/46] fix: load a non-PIE main module without host imports

dyld_load aborted when the main module was not PIE and no import object
was given in the options.
---
 libdyld/dyld.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/libdyld/dyld.c b/libdyld/dyld.c
index 4c3a9ed..d1a3916 100644
--- a/libdyld/dyld.c
+++ b/libdyld/dyld.c
@@ -930,7 +930,6 @@ dyld_load_object_from_file(struct dyld *d, const struct name *name,
                    CSTR(name), obj->memory_base, obj->table_base);
         global_set_i32(&obj->memory_base_global, obj->memory_base);
         global_set_i32(&obj->table_base_global, obj->table_base);
-        assert(d->shared_import_obj != NULL);
         obj->local_import_obj->next = d->shared_import_obj;
         struct report report;
         report_init(&report);
-- 
2.43.0


From 2a1b1f593a5805eaeb9bad6db170df80d33bdc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:31:41 +0000
Subject: [PATCH 33/46] fix: load objects into memory and table which wasm code
 has grown

The dynamic linker assumed that the memory and the table only grow by
itself. When wasm code had used memory.grow or table.grow, loading an
object later failed an assertion, or placed the object in memory which
the wasm code was using.
---
 libdyld/dyld.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/libdyld/dyld.c b/libdyld/dyld.c
index d1a3916..5748d9a 100644
--- a/libdyld/dyld.c
+++ b/libdyld/dyld.c
@@ -531,6 +531,20 @@ dyld_allocate_memory(struct dyld *d, uint32_t align, uint32_t sz,
                      uint32_t *resultp)
 {
         uint32_t oldbase = d->memory_base;
+        const uint32_t page_shift = memtype_page_shift(d->meminst->type);
+        const uint32_t page_size = 1 << page_shift;
+        uint32_t oldnpg = howmany(oldbase, page_size);
+        if (d->meminst->size_in_pages > oldnpg) {
+                /*
+                 * wasm code has grown the memory by itself.
+                 * do not use what it owns.
+                 */
+                oldnpg = d->meminst->size_in_pages;
+                if (oldnpg > UINT32_MAX >> page_shift) {
+                        return ENOMEM;
+                }
+                oldbase = oldnpg << page_shift;
+        }
         uint32_t aligned;
         uint32_t newbase;
         int error = place(oldbase, align, sz, &aligned, &newbase);
@@ -538,8 +552,6 @@ dyld_allocate_memory(struct dyld *d, uint32_t align, uint32_t sz,
                 return error;
         }
         assert(newbase >= oldbase);
-        const uint32_t page_size = 1 << memtype_page_shift(d->meminst->type);
-        uint32_t oldnpg = howmany(oldbase, page_size);
         uint32_t newnpg = howmany(newbase, page_size);
         assert(newnpg >= oldnpg);
         if (newnpg > oldnpg) {
@@ -559,6 +571,10 @@ dyld_allocate_table(struct dyld *d, uint32_t align, uint32_t sz,
                     uint32_t *resultp)
 {
         uint32_t oldbase = d->table_base;
+        if (d->tableinst->size > oldbase) {
+                /* wasm code has grown the table by itself. */
+                oldbase = d->tableinst->size;
+        }
         uint32_t aligned;
         uint32_t newbase;
         int error = place(oldbase, align, sz, &aligned, &newbase);
-- 
2.43.0


From eb84703c8b945df037aab4b9fa5359451d0eff45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:31:41 +0000
Subject: [PATCH 34/46] fix: keep the names of dynamically loaded objects valid

The objects referred to a name in an array which is reallocated when
another object is loaded, and to a name which was freed when the load
failed. An object whose constructor loads another object made the array
inconsistent.
---
 libdyld/dyld.c       |  9 ++++++---
 libdyld/dyld.h       |  2 +-
 libdyld/dyld_dlfcn.c | 28 +++++++++++++++++++++-------
 3 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/libdyld/dyld.c b/libdyld/dyld.c
index 5748d9a..ca3e45f 100644
--- a/libdyld/dyld.c
+++ b/libdyld/dyld.c
@@ -1536,10 +1536,13 @@ dyld_clear(struct dyld *d)
                 import_object_destroy(mctx, imp);
         }
 #if defined(TOYWASM_ENABLE_DYLD_DLFCN)
-        struct dyld_dynamic_object *it;
+        struct dyld_dynamic_object **it;
         VEC_FOREACH(it, d->dynobjs) {
-                size_t sz = strlen(it->name.data) + 1;
-                mem_free(mctx, (void *)it->name.data, sz); /* discard const */
+                struct dyld_dynamic_object *dobj = *it;
+                size_t sz = (size_t)dobj->name.nbytes + 1;
+                mem_free(mctx, (void *)dobj->name.data,
+                         sz); /* discard const */
+                mem_free(mctx, dobj, sizeof(*dobj));
         }
         VEC_FREE(mctx, d->dynobjs);
 #endif
diff --git a/libdyld/dyld.h b/libdyld/dyld.h
index 53cce31..64c9574 100644
--- a/libdyld/dyld.h
+++ b/libdyld/dyld.h
@@ -78,7 +78,7 @@ struct dyld {
         struct dyld_options opts;
 
 #if defined(TOYWASM_ENABLE_DYLD_DLFCN)
-        VEC(, struct dyld_dynamic_object) dynobjs;
+        VEC(, struct dyld_dynamic_object *) dynobjs;
 #endif
 
         struct mem_context *mctx;
diff --git a/libdyld/dyld_dlfcn.c b/libdyld/dyld_dlfcn.c
index a1ffb62..c3885d5 100644
--- a/libdyld/dyld_dlfcn.c
+++ b/libdyld/dyld_dlfcn.c
@@ -86,12 +86,16 @@ dyld_dlfcn_load_object(struct exec_context *ctx, struct host_instance *hi,
                 user_ret = 1;
                 goto fail;
         }
-        struct dyld_dynamic_object *dobj = &VEC_ELEM(d->dynobjs, idx);
-        memset(dobj, 0, sizeof(*dobj));
-
-        char *name_data = mem_alloc(d->mctx, namelen + 1);
+        struct dyld_dynamic_object *dobj = mem_zalloc(d->mctx, sizeof(*dobj));
+        if (dobj == NULL) {
+                xlog_error("%s: malloc failed", __func__);
+                user_ret = 1;
+                goto fail;
+        }
+        char *name_data = mem_alloc(d->mctx, (size_t)namelen + 1);
         if (name_data == NULL) {
                 xlog_error("%s: malloc failed", __func__);
+                mem_free(d->mctx, dobj, sizeof(*dobj));
                 user_ret = 1;
                 goto fail;
         }
@@ -101,15 +105,20 @@ dyld_dlfcn_load_object(struct exec_context *ctx, struct host_instance *hi,
         struct name *name = &dobj->name;
         name->data = name_data;
         name->nbytes = namelen;
+        /*
+         * Note: the init functions of the object can load other objects.
+         * Note: even if the load fails, the name can be used by
+         * dyld_object. dyld_clear frees it.
+         */
+        VEC_ELEM(d->dynobjs, idx) = dobj;
+        d->dynobjs.lsize++;
         ret = dyld_dynamic_load_object_by_name(d, name, false, &dobj->obj);
         if (ret != 0) {
                 xlog_error("%s: dyld_dynamic_load_object_by_name failed",
                            __func__);
-                mem_free(d->mctx, name_data, namelen + 1);
                 user_ret = 1;
                 goto fail;
         }
-        d->dynobjs.lsize++;
         uint32_t handle = idx + 1;
         xlog_trace(
                 "dyld: dyld:load_object succeeded for %.*s, handle %" PRIu32,
@@ -164,7 +173,12 @@ dyld_dlfcn_resolve_symbol(struct exec_context *ctx, struct host_instance *hi,
                 user_ret = 1;
                 goto fail;
         }
-        const struct dyld_dynamic_object *dobj = &VEC_ELEM(d->dynobjs, idx);
+        const struct dyld_dynamic_object *dobj = VEC_ELEM(d->dynobjs, idx);
+        if (dobj->obj == NULL) {
+                /* not loaded */
+                user_ret = 1;
+                goto fail;
+        }
 
         void *vp;
         host_ret = host_func_getptr(ctx, dyld_memory(d), namep, namelen, &vp);
-- 
2.43.0


From 0a111f66b7da0871805d1dfb18151d50c8dbeb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:31:41 +0000
Subject: [PATCH 35/46] fix: do not use objects whose dynamic load failed

An object which was loaded, but whose dependencies or symbols were
missing, was still used as a dependency of objects loaded later. It was
neither relocated nor initialised, and its missing dependency ran into
an assertion.
---
 libdyld/dyld.c       |  5 ++++-
 libdyld/dyld_dlfcn.c | 10 ++++++++--
 libdyld/dyld_impl.h  |  3 +++
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/libdyld/dyld.c b/libdyld/dyld.c
index ca3e45f..c02b513 100644
--- a/libdyld/dyld.c
+++ b/libdyld/dyld.c
@@ -308,7 +308,7 @@ dyld_find_object_by_name(struct dyld *d, const struct name *name)
 {
         struct dyld_object *obj;
         SLIST_FOREACH(obj, &d->objs, q) {
-                if (is_main_object(obj)) {
+                if (is_main_object(obj) || obj->failed) {
                         continue;
                 }
                 if (!compare_name(obj->name, name)) {
@@ -1318,6 +1318,9 @@ dyld_resolve_symbol(struct dyld_object *refobj, enum symtype symtype,
         struct dyld *d = refobj->dyld;
         struct dyld_object *obj;
         SLIST_FOREACH(obj, &d->objs, q) {
+                if (obj->failed) {
+                        continue;
+                }
                 int ret = dyld_resolve_symbol_in_obj(refobj, obj, symtype, sym,
                                                      resultp);
                 if (ret == 0) {
diff --git a/libdyld/dyld_dlfcn.c b/libdyld/dyld_dlfcn.c
index c3885d5..37d4ac2 100644
--- a/libdyld/dyld_dlfcn.c
+++ b/libdyld/dyld_dlfcn.c
@@ -41,8 +41,14 @@ dyld_dynamic_load_object_by_name(struct dyld *d, const struct name *name,
         *objp = obj;
         return 0;
 fail:
-        if (obj != NULL) {
-                /* TODO: implement cleanup */
+        /*
+         * hide what we have loaded.
+         *
+         * TODO: implement cleanup. it isn't safe to just destroy the objects
+         * because their functions might be referenced by the table.
+         */
+        for (; obj != NULL; obj = SLIST_NEXT(obj, q)) {
+                obj->failed = true;
         }
         return ret;
 }
diff --git a/libdyld/dyld_impl.h b/libdyld/dyld_impl.h
index f40922f..43e926c 100644
--- a/libdyld/dyld_impl.h
+++ b/libdyld/dyld_impl.h
@@ -47,6 +47,9 @@ struct dyld_object {
         struct dyld *dyld;
         SLIST_ENTRY(struct dyld_object) q;
 
+        /* a failed dynamic load. not used for symbols or dependencies. */
+        bool failed;
+
         /* for tsort */
         bool visited;
         SLIST_ENTRY(struct dyld_object) tq;
-- 
2.43.0


From f8b8f0d0c342d333d31fb64fd8638d62a349b0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:37:54 +0000
Subject: [PATCH 36/46] fix: read dylink.0 subsections after an unknown one

An unknown subsection ended the loop, so a module with another
subsection after it was rejected because of unread bytes.
---
 lib/module.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/module.c b/lib/module.c
index de16fca..6cbe22a 100644
--- a/lib/module.c
+++ b/lib/module.c
@@ -2087,7 +2087,6 @@ read_dylink_0_section(const uint8_t **pp, const uint8_t *ep,
                         xlog_trace("skipping unimplemented subsection (%u)",
                                    (unsigned int)type);
                         p = sep;
-                        break;
                 }
         } while (p < ep);
         ret = 0;
-- 
2.43.0


From 1eba5593dbcba6a5e370bbaa3fc584d86cfcff26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:10:45 +0000
Subject: [PATCH 37/46] fix: do not free the reference bitmap twice when its
 reallocation fails

---
 lib/module.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/module.c b/lib/module.c
index 6cbe22a..ea874ff 100644
--- a/lib/module.c
+++ b/lib/module.c
@@ -1191,6 +1191,7 @@ read_function_section(const uint8_t **pp, const uint8_t *ep,
         if (m->nfuncs > 0) {
                 if (ctx->refs_size > 0) {
                         bitmap_free(mctx, &ctx->refs, ctx->refs_size);
+                        ctx->refs.data = NULL;
                 }
                 ctx->refs_size = m->nimportedfuncs + m->nfuncs;
                 ret = bitmap_alloc(mctx, &ctx->refs, ctx->refs_size);
-- 
2.43.0


From 84e36c0ff675f6550627d8a40bb9972419dcb640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:10:45 +0000
Subject: [PATCH 38/46] fix: handle allocation failure of the dylink section

---
 lib/module.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/module.c b/lib/module.c
index ea874ff..44e6b3e 100644
--- a/lib/module.c
+++ b/lib/module.c
@@ -2094,9 +2094,11 @@ read_dylink_0_section(const uint8_t **pp, const uint8_t *ep,
         *pp = p;
         return 0;
 fail:
-        clear_dylink(mctx, m->dylink);
-        mem_free(mctx, m->dylink, sizeof(*m->dylink));
-        m->dylink = NULL;
+        if (m->dylink != NULL) {
+                clear_dylink(mctx, m->dylink);
+                mem_free(mctx, m->dylink, sizeof(*m->dylink));
+                m->dylink = NULL;
+        }
         return ret;
 }
 #endif /* defined(TOYWASM_ENABLE_DYLD) */
-- 
2.43.0


From 9753d86632de0c103220f430d5834469fbdccfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:48:04 +0000
Subject: [PATCH 39/46] fix: reject 32-bit arguments which do not fit

An i32 or f32 argument larger than 4294967295 was silently replaced by 0.
Report an error instead of calling the function with another value.
---
 cli/repl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli/repl.c b/cli/repl.c
index bffcc89..8f70f75 100644
--- a/cli/repl.c
+++ b/cli/repl.c
@@ -927,6 +927,7 @@ arg_conv(enum valtype type, const char *s, struct val *result)
                 ret = str_to_uint(s, 0, &u);
                 if (ret == 0) {
                         if (u > UINT32_MAX) {
+                                ret = EOVERFLOW;
                                 break;
                         }
                         result->u.i32 = (uint32_t)u;
-- 
2.43.0


From be0bf071799646b9760c553c9fe49c85b738d66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:48:04 +0000
Subject: [PATCH 40/46] fix: reject v128 arguments with other characters than
 digits

sscanf stops at the first character which is not a hexadecimal digit and
accepts signs, so that text with such characters was taken as another value.
---
 cli/repl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/repl.c b/cli/repl.c
index 8f70f75..c524135 100644
--- a/cli/repl.c
+++ b/cli/repl.c
@@ -899,7 +899,8 @@ parse_v128(const char *s, struct val *result)
         uint64_t upper;
         uint64_t lower;
         int ret;
-        if (strlen(s) != 32) {
+        if (strlen(s) != 32 ||
+            strspn(s, "0123456789abcdefABCDEF") != 32) {
                 return EINVAL;
         }
         ret = sscanf(s, "%016" SCNx64 "%016" SCNx64, &upper, &lower);
-- 
2.43.0


From 17782e93ed8fb1480a2e12232448197eafc73c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:48:04 +0000
Subject: [PATCH 41/46] fix: report the trap when the arguments do not fit on
 the stack

Invoking a function with more argument cells than --max-stack-cells allows
ended in an assertion failure because the trap was not passed on.
---
 cli/repl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cli/repl.c b/cli/repl.c
index c524135..e16479c 100644
--- a/cli/repl.c
+++ b/cli/repl.c
@@ -1148,6 +1148,9 @@ exec_func(struct exec_context *ctx, uint32_t funcidx,
         assert(ctx->stack.lsize == 0);
         ret = exec_push_vals(ctx, ptype, param);
         if (ret != 0) {
+                if (ret == ETOYWASMTRAP) {
+                        *trapp = &ctx->trap;
+                }
                 goto fail;
         }
         ret = instance_execute_func(ctx, funcidx, ptype, rtype);
-- 
2.43.0


From 9ec4d1eb7130e214ef0cd30b4ffb2200df5d612f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:48:04 +0000
Subject: [PATCH 42/46] fix: do not leak the line buffer for every repl command

getline allocates a new buffer when the given size is 0. Keep the size
along with the buffer.
---
 cli/repl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/repl.c b/cli/repl.c
index e16479c..1ba03fc 100644
--- a/cli/repl.c
+++ b/cli/repl.c
@@ -1540,12 +1540,12 @@ int
 toywasm_repl(struct repl_state *state)
 {
         char *line = NULL;
+        size_t linecap = 0;
         while (true) {
                 int ret;
 
                 nbio_printf("%s> ", state->opts.prompt);
                 fflush(stdout);
-                size_t linecap = 0;
                 ssize_t ssz = nbio_getline(&line, &linecap, stdin);
                 if (ssz == -1) {
                         break;
-- 
2.43.0


From ff0260279e660ed3d06d71dff62c83afa72051d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:49:31 +0000
Subject: [PATCH 43/46] fix: print traces of traps before the first instruction

A trap can occur before any instruction is executed, for example in a
directly invoked host function or when the limit of frames is reached.
There is no current pc then, and the conversion failed with an assertion.
---
 lib/exec_debug.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/exec_debug.c b/lib/exec_debug.c
index 99453e0..4ec8f23 100644
--- a/lib/exec_debug.c
+++ b/lib/exec_debug.c
@@ -149,8 +149,10 @@ print_trace(const struct exec_context *ctx)
          * Note: ctx->p can be a bit outdated because we don't always
          * keep it updated, especially on errors.
          */
-        uint32_t pc = ptr2pc(ctx->instance->module, ctx->p);
-        nbio_printf("current pc %06" PRIx32 "\n", pc);
+        if (ctx->p != NULL) {
+                uint32_t pc = ptr2pc(ctx->instance->module, ctx->p);
+                nbio_printf("current pc %06" PRIx32 "\n", pc);
+        }
 
         nametable_init(&table);
         while (true) {
-- 
2.43.0


From 9b389a4c95677ec9fb2a4e4f6268443b780358a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:51:29 +0000
Subject: [PATCH 44/46] fix: do not move a dyld when another module is loaded

Loaded objects refer to the struct dyld they belong to. Loading a second
module with --dyld reallocated the list of modules which contained it, so
that the objects referred to freed memory. Allocate it separately.
---
 cli/repl.c | 13 ++++++++++---
 cli/repl.h |  2 +-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/cli/repl.c b/cli/repl.c
index 1ba03fc..9fe5ede 100644
--- a/cli/repl.c
+++ b/cli/repl.c
@@ -177,7 +177,7 @@ repl_unload_u(struct repl_state *state, struct repl_module_state_u *mod_u)
 {
 #if defined(TOYWASM_ENABLE_DYLD)
         if (state->opts.enable_dyld) {
-                struct dyld *d = &mod_u->u.dyld;
+                struct dyld *d = mod_u->u.dyld;
 #if defined(TOYWASM_ENABLE_DYLD)
                 if (state->opts.print_stats) {
                         nbio_printf("=== dyld memory consumption immediately "
@@ -186,6 +186,7 @@ repl_unload_u(struct repl_state *state, struct repl_module_state_u *mod_u)
                 }
 #endif
                 dyld_clear(d);
+                mem_free(state->mctx, d, sizeof(*d));
                 return;
         }
 #endif
@@ -738,20 +739,26 @@ toywasm_repl_load(struct repl_state *state, const char *modname,
                 if (trap_ok) {
                         return ENOTSUP; /* not implemented */
                 }
-                struct dyld *d = &mod_u->u.dyld;
+                struct dyld *d = mem_alloc(state->mctx, sizeof(*d));
+                if (d == NULL) {
+                        return ENOMEM;
+                }
                 dyld_init(d, state->dyld_mctx);
                 d->opts = state->opts.dyld_options;
                 d->opts.base_import_obj = state->imports;
                 ret = dyld_load(d, filename);
                 if (ret != 0) {
+                        mem_free(state->mctx, d, sizeof(*d));
                         return ret;
                 }
                 set_memory(state, dyld_memory(d));
                 ret = dyld_execute_init_funcs(d);
                 if (ret != 0) {
                         dyld_clear(d);
+                        mem_free(state->mctx, d, sizeof(*d));
                         return ret;
                 }
+                mod_u->u.dyld = d;
                 state->modules.lsize++;
                 return 0;
         }
@@ -1220,7 +1227,7 @@ toywasm_repl_invoke(struct repl_state *state, const char *modname,
         struct mem_context *mctx;
 #if defined(TOYWASM_ENABLE_DYLD)
         if (state->opts.enable_dyld) {
-                struct dyld *d = &mod_u->u.dyld;
+                struct dyld *d = mod_u->u.dyld;
                 inst = dyld_main_object_instance(d);
                 mctx = state->mctx;
         } else
diff --git a/cli/repl.h b/cli/repl.h
index e5adeca..f6f2259 100644
--- a/cli/repl.h
+++ b/cli/repl.h
@@ -44,7 +44,7 @@ struct repl_module_state {
 struct repl_module_state_u {
         union {
 #if defined(TOYWASM_ENABLE_DYLD)
-                struct dyld dyld;
+                struct dyld *dyld;
 #endif
                 struct repl_module_state repl;
         } u;
-- 
2.43.0


From 8e501a43c4ac58db7603c861e0e732b63bb78098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:52:24 +0000
Subject: [PATCH 45/46] fix: do not reset a repl state which could not be
 allocated

main dereferenced a null pointer when the allocation of the state failed.
---
 cli/main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/main.c b/cli/main.c
index 37a5366..5e118b3 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -689,7 +689,9 @@ main(int argc, char **argv)
         exit_status = 0;
 #endif
 fail:
-        toywasm_repl_reset(state);
+        if (state != NULL) {
+                toywasm_repl_reset(state);
+        }
 #if defined(TOYWASM_ENABLE_WASI)
         VEC_FREE(mctx, wasi_envs);
 #endif
-- 
2.43.0


From 7d2129b045295ed5ad8307e95c93a065f4f016b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:31:22 +0000
Subject: [PATCH 46/46] fix: write no groups of locals beyond the used ones

Groups of zero locals are dropped by the loader. The entries they would
have used stay empty, and were written with an invalid type.
---
 lib/module_writer.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/module_writer.c b/lib/module_writer.c
index 0613b4b..3c189a8 100644
--- a/lib/module_writer.c
+++ b/lib/module_writer.c
@@ -402,9 +402,14 @@ write_element(struct writer *w, const struct element *e)
 static void
 write_locals(struct writer *w, const struct localtype *lt)
 {
-        WRITE_LEB_U32(lt->nlocalchunks);
+        uint32_t n = lt->nlocalchunks;
+        /* unused entries, left by groups of zero locals, are at the end */
+        while (n > 0 && lt->localchunks[n - 1].n == 0) {
+                n--;
+        }
+        WRITE_LEB_U32(n);
         uint32_t i;
-        for (i = 0; i < lt->nlocalchunks; i++) {
+        for (i = 0; i < n; i++) {
                 const struct localchunk *chunk = &lt->localchunks[i];
                 WRITE_LEB_U32(chunk->n);
                 WRITE_U8(chunk->type);
-- 
2.43.0

