From 0c455bcf5606099c724b77db129b86354f05b01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 01/46] fix: number parsing is not confused by a stale errno

---
 utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils.c b/utils.c
index d9e17ab..60be479 100644
--- a/utils.c
+++ b/utils.c
@@ -126,6 +126,7 @@ int utils_rename_file(const char *src, const char *dst) {
 long int utils_strtol(const char *v, int base, int *rcp) {
   *rcp = 0;
   char *ep = 0;
+  errno = 0;
   long int ret = strtol(v, &ep, base);
   if (*ep != '\0' || errno == ERANGE) {
     *rcp = AK_ERROR_INVALID_ARGS;
@@ -137,6 +138,7 @@ long int utils_strtol(const char *v, int base, int *rcp) {
 long long utils_strtoll(const char *v, int base, int *rcp) {
   *rcp = 0;
   char *ep = 0;
+  errno = 0;
   long long ret = strtoll(v, &ep, base);
   if ((*ep != '\0' && *ep != '\n') || errno == ERANGE) {
     *rcp = AK_ERROR_INVALID_ARGS;
-- 
2.43.0


From ce24c9ecc0b49a6b97d43e1acebc5bee12fd61c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 02/46] fix: damaged or unknown dependency records count as
 outdated

---
 deps.c | 43 +++++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/deps.c b/deps.c
index 764cec4..9bb1f44 100644
--- a/deps.c
+++ b/deps.c
@@ -27,13 +27,32 @@ int deps_open(const char *path, int omode, struct deps *d) {
   return rc;
 }
 
+/// The current record cannot be read or understood, so whatever it stands for must be considered as changed.
+static bool _cur_damaged(struct deps *d) {
+  d->type = DEPS_TYPE_OUTDATED;
+  d->flags = ' ';
+  d->serial = 0;
+  d->alias = 0;
+  d->resource = "";
+  return true;
+}
+
 bool deps_cur_next(struct deps *d) {
   int rc;
   if (d && d->file) {
     if (!fgets(d->buf, sizeof(d->buf), d->file)) {
+      if (ferror(d->file)) {
+        deps_close(d);
+        return _cur_damaged(d);
+      }
       return false;
     }
 
+    size_t len = strlen(d->buf);
+    if (len < 3 || d->buf[len - 1] != '\n') {
+      return _cur_damaged(d);
+    }
+
     char *ls = 0;
     char *rp = d->buf;
     d->type = *rp++;
@@ -56,21 +75,24 @@ bool deps_cur_next(struct deps *d) {
         if (!d->resource) {
           *rp = '\0';
           d->resource = rp + 1;
+        } else {
+          ls = rp;
         }
-        ls = rp;
       }
       ++rp;
     }
 
-    if (ls) {
-      *ls = '\0';
-      if (d->type == DEPS_TYPE_FILE || d->type == DEPS_TYPE_NODE_VALUE || d->type == DEPS_TYPE_ALIAS) {
-        ++ls;
-        d->serial = utils_strtoll(ls, 10, &rc);
-        if (rc) {
-          akerror(rc, "Failed to read '%s' as number", ls);
-          return false;
-        }
+    if (!ls) {
+      return _cur_damaged(d);
+    }
+
+    *ls = '\0';
+    if (d->type == DEPS_TYPE_FILE || d->type == DEPS_TYPE_NODE_VALUE || d->type == DEPS_TYPE_ALIAS) {
+      ++ls;
+      d->serial = utils_strtoll(ls, 10, &rc);
+      if (rc || *ls == '\n') {
+        akerror(rc, "Failed to read '%s' as number", ls);
+        return _cur_damaged(d);
       }
     }
 
@@ -112,6 +134,7 @@ bool deps_cur_is_outdated(struct node *n, struct deps *d) {
         return strcmp(val, d->resource) != 0;
       }
       case DEPS_TYPE_OUTDATED:
+      default: // A kind that cannot be verified here
         return true;
     }
   }
-- 
2.43.0


From 2b827b4ea7c3429fc4e3e3fdef27c5d0a9c711db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 03/46] fix: environment entries without '=' leave no hole in
 the child environment

---
 spawn.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spawn.c b/spawn.c
index aa25837..ba4b044 100644
--- a/spawn.c
+++ b/spawn.c
@@ -184,7 +184,7 @@ static char** _env_create(struct spawn *s) {
   char **nenv = pool_alloc(s->pool, sizeof(*nenv) * (c + 1));
   nenv[c] = 0;
 
-  for (char **it = environ; *it && i < c; ++it, ++i) {
+  for (char **it = environ; *it && i < c; ++it) {
     const char *entry = *it;
     const char *ep = strchr(entry, '=');
     if (ep == 0) {
@@ -193,9 +193,9 @@ static char** _env_create(struct spawn *s) {
     size_t keylen = ep - entry;
     char *my = _env_find(s, entry, keylen);
     if (my) {
-      nenv[i] = my;
+      nenv[i++] = my;
     } else {
-      nenv[i] = (char*) pool_strdup(s->pool, entry);
+      nenv[i++] = (char*) pool_strdup(s->pool, entry);
     }
   }
   for (c = 0; c < s->env.num; ++c, ++i) {
-- 
2.43.0


From 433e17997fa87326b58f156e7323a4fc4c5b9e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 04/46] fix: an empty command is an error instead of a crash

---
 spawn.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spawn.c b/spawn.c
index ba4b044..1d36762 100644
--- a/spawn.c
+++ b/spawn.c
@@ -283,6 +283,10 @@ int spawn_do(struct spawn *s) {
   char **envp = _env_create(s);
   char **args = _args_create(s);
   const char *file = args[0];
+  if (!file) {
+    akerror(AK_ERROR_INVALID_ARGS, "Command to spawn is empty", 0);
+    return AK_ERROR_INVALID_ARGS;
+  }
 
   {
     struct xstr *xstr = xstr_create_empty();
-- 
2.43.0


From 6ea2eb947a020c67f0ad57f99de3c2e7b344ef7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 05/46] fix: read command output until end of stream, report
 failed waits, close pipes when a command cannot be started

---
 spawn.c | 52 +++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 9 deletions(-)

diff --git a/spawn.c b/spawn.c
index 1d36762..91bec83 100644
--- a/spawn.c
+++ b/spawn.c
@@ -316,22 +316,26 @@ int spawn_do(struct spawn *s) {
 
   if (!nowait) {
     if (pipe(pipe_stdout) == -1) {
-      return errno;
+      rc = errno;
+      goto fail;
     }
     if (pipe(pipe_stderr) == -1) {
-      return errno;
+      rc = errno;
+      goto fail;
     }
   }
 
   if (s->stdin_provider) {
     if (pipe(pipe_stdin) == -1) {
-      return errno;
+      rc = errno;
+      goto fail;
     }
   }
 
   s->pid = fork();
   if (s->pid == -1) {
-    return errno;
+    rc = errno;
+    goto fail;
   }
 
   if (s->pid == 0) {
@@ -400,6 +404,10 @@ int spawn_do(struct spawn *s) {
       while (c > 0) {
         int ret = poll(fds, sizeof(fds) / sizeof(fds[0]), -1);
         if (ret == -1) {
+          if (errno == EINTR || errno == EAGAIN) {
+            continue;
+          }
+          rc = errno;
           break;
         }
         for (int i = 0; i < sizeof(fds) / sizeof(fds[0]); ++i) {
@@ -416,13 +424,15 @@ int spawn_do(struct spawn *s) {
               } else {
                 s->stderr_handler(buf, n, s);
               }
-            } else if (n == -1 && errno != EAGAIN && errno != EWOULDBLOCK) {
+            } else if (n == 0 || (errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR)) {
+              if (n == -1) {
+                rc = errno;
+              }
               close(fds[i].fd);
               fds[i].fd = -1;
               --c;
             }
-          }
-          if (revents & (POLLERR | POLLHUP | POLLNVAL)) {
+          } else if (revents & (POLLERR | POLLHUP | POLLNVAL)) { // No more data pending
             close(fds[i].fd);
             fds[i].fd = -1;
             --c;
@@ -430,8 +440,17 @@ int spawn_do(struct spawn *s) {
         }
       }
 
-      if (waitpid(s->pid, &s->wstatus, 0) == -1) {
-        perror("waitpid");
+      for (int i = 0; i < sizeof(fds) / sizeof(fds[0]); ++i) {
+        if (fds[i].fd != -1) {
+          close(fds[i].fd);
+        }
+      }
+
+      while (waitpid(s->pid, &s->wstatus, 0) == -1) {
+        if (errno != EINTR) {
+          rc = errno;
+          break;
+        }
       }
     }
   }
@@ -440,6 +459,21 @@ int spawn_do(struct spawn *s) {
     akerror(rc, "Failed to spawn: %s", file);
   }
   return rc;
+
+fail:
+  for (int i = 0; i < 2; ++i) {
+    if (pipe_stdout[i] != -1) {
+      close(pipe_stdout[i]);
+    }
+    if (pipe_stderr[i] != -1) {
+      close(pipe_stderr[i]);
+    }
+    if (pipe_stdin[i] != -1) {
+      close(pipe_stdin[i]);
+    }
+  }
+  akerror(rc, "Failed to spawn: %s", file);
+  return rc;
 }
 
 void spawn_destroy(struct spawn *s) {
-- 
2.43.0


From 37b128f4c400999a0ff5e3d0d7149984b04c96eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 06/46] fix: a compile job that cannot be started is destroyed
 once

---
 node_cc.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/node_cc.c b/node_cc.c
index 53672aa..5fd5bea 100644
--- a/node_cc.c
+++ b/node_cc.c
@@ -157,7 +157,6 @@ static void _cc_on_build_source(
 
   int rc = spawn_do(s);
   if (rc) {
-    spawn_destroy(s);
     node_error(rc, ctx->n, "%s", ctx->cc);
     return;
   }
-- 
2.43.0


From 2189fa1a9303c523f6bf1c5d959245aa7ad772df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 07/46] fix: do not wait for compile jobs when none was started

---
 node_cc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/node_cc.c b/node_cc.c
index 5fd5bea..c6e15e9 100644
--- a/node_cc.c
+++ b/node_cc.c
@@ -237,6 +237,10 @@ static void _cc_on_resolve(struct node_resolve *r) {
         ++ctx->num_failed;
         map_put_str(fmap, src, (void*) (intptr_t) 1);
         if (slist == &ctx->sources) {
+    if (tasks.num == 0) {
+      continue;
+    }
+
           deps_add(&deps, DEPS_TYPE_FILE_OUTDATED, 's', src, 0);
         }
         _cc_task_destroy(&task);
-- 
2.43.0


From 0ec1a64b2354f7e9ff89d5e2ade17be413885827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 08/46] fix: every compiler reported file is a dependency of
 its source

---
 node_cc.c | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/node_cc.c b/node_cc.c
index c6e15e9..b261821 100644
--- a/node_cc.c
+++ b/node_cc.c
@@ -32,15 +32,8 @@ struct _cc_ctx {
 };
 
 static void _cc_deps_MMD_item_add(const char *item, struct node *n, struct deps *deps, const char *src) {
-  char buf[127];
-  char *p = strrchr(item, '.');
-  if (!p || p[1] == '\0') {
-    return;
-  }
-  ++p;
-  char *ext = utils_strncpy(buf, p, sizeof(buf));
-  if (*ext == 'c' || *ext == 'C' || *ext == 'm') {
-    // Skip source files
+  if (strcmp(item, src) == 0) {
+    // Skip the source file itself
     return;
   }
   deps_add_alias(deps, 's', src, item);
-- 
2.43.0


From 757bb58e88983b480248c001c0d10924e7c91960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 09/46] fix: a produced source is brought up to date even when
 it exists

---
 node_cc.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/node_cc.c b/node_cc.c
index b261821..4d879c4 100644
--- a/node_cc.c
+++ b/node_cc.c
@@ -326,15 +326,14 @@ static void _cc_build(struct node *n) {
   node_env_set(n, ctx->objskey, objs);
   free(objs);
 
+    struct node *pn = node_by_product_raw(n, src);
+    if (pn) {
+      node_build(pn);
+    }
   for (int i = 0; i < ctx->sources.num; ++i) {
     const char *src = *(char**) ulist_get(&ctx->sources, i);
     if (!path_is_exist(src)) {
-      struct node *pn = node_by_product_raw(n, src);
-      if (pn) {
-        node_build(pn);
-      } else {
-        node_fatal(AK_ERROR_DEPENDENCY_UNRESOLVED, n, "'%s'", src);
-      }
+      node_fatal(AK_ERROR_DEPENDENCY_UNRESOLVED, n, "'%s'", src);
     }
   }
 
-- 
2.43.0


From 4e06265647e0d6930c8a6115826491f384bb7593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 10/46] fix: undefined values are recorded as empty
 dependencies

---
 node_cc.c      | 16 +++++++---------
 node_install.c |  4 +---
 node_run.c     |  4 +---
 script.c       |  2 +-
 4 files changed, 10 insertions(+), 16 deletions(-)

diff --git a/node_cc.c b/node_cc.c
index 4d879c4..6f8a555 100644
--- a/node_cc.c
+++ b/node_cc.c
@@ -194,9 +194,7 @@ static void _cc_on_resolve(struct node_resolve *r) {
   for (int i = 0; i < r->node_val_deps.num; ++i) {
     struct node *nv = *(struct node**) ulist_get(&r->node_val_deps, i);
     const char *val = node_value(nv);
-    if (val) {
-      deps_add(&deps, DEPS_TYPE_NODE_VALUE, 0, val, i);
-    }
+    deps_add(&deps, DEPS_TYPE_NODE_VALUE, 0, val ? val : "", i);
   }
 
   for (int i = 0; i < ctx->consumes.num; ++i) {
@@ -230,10 +228,6 @@ static void _cc_on_resolve(struct node_resolve *r) {
         ++ctx->num_failed;
         map_put_str(fmap, src, (void*) (intptr_t) 1);
         if (slist == &ctx->sources) {
-    if (tasks.num == 0) {
-      continue;
-    }
-
           deps_add(&deps, DEPS_TYPE_FILE_OUTDATED, 's', src, 0);
         }
         _cc_task_destroy(&task);
@@ -243,6 +237,10 @@ static void _cc_on_resolve(struct node_resolve *r) {
       ++i;
     }
 
+    if (tasks.num == 0) {
+      continue;
+    }
+
     int wstatus = 0;
     pid_t pid = wait(&wstatus);
     if (pid == -1) {
@@ -326,12 +324,12 @@ static void _cc_build(struct node *n) {
   node_env_set(n, ctx->objskey, objs);
   free(objs);
 
+  for (int i = 0; i < ctx->sources.num; ++i) {
+    const char *src = *(char**) ulist_get(&ctx->sources, i);
     struct node *pn = node_by_product_raw(n, src);
     if (pn) {
       node_build(pn);
     }
-  for (int i = 0; i < ctx->sources.num; ++i) {
-    const char *src = *(char**) ulist_get(&ctx->sources, i);
     if (!path_is_exist(src)) {
       node_fatal(AK_ERROR_DEPENDENCY_UNRESOLVED, n, "'%s'", src);
     }
diff --git a/node_install.c b/node_install.c
index 91911fc..b642b86 100644
--- a/node_install.c
+++ b/node_install.c
@@ -187,9 +187,7 @@ static void _install_on_resolve(struct node_resolve *r) {
   for (int i = 0; i < r->node_val_deps.num; ++i) {
     struct node *nv = *(struct node**) ulist_get(&r->node_val_deps, i);
     const char *val = node_value(nv);
-    if (val) {
-      deps_add(&deps, DEPS_TYPE_NODE_VALUE, 0, val, i);
-    }
+    deps_add(&deps, DEPS_TYPE_NODE_VALUE, 0, val ? val : "", i);
   }
 
   for (int i = 0; i < ctx->consumes.num; ++i) {
diff --git a/node_run.c b/node_run.c
index 77cb040..12eecec 100644
--- a/node_run.c
+++ b/node_run.c
@@ -202,9 +202,7 @@ static void _run_on_resolve(struct node_resolve *r) {
   for (int i = 0; i < r->node_val_deps.num; ++i) {
     struct node *nv = *(struct node**) ulist_get(&r->node_val_deps, i);
     const char *val = node_value(nv);
-    if (val) {
-      deps_add(&deps, DEPS_TYPE_NODE_VALUE, 0, val, i);
-    }
+    deps_add(&deps, DEPS_TYPE_NODE_VALUE, 0, val ? val : "", i);
   }
 
   for (int i = 0; i < ctx->consumes.num; ++i) {
diff --git a/script.c b/script.c
index 1858c2f..2629e8f 100644
--- a/script.c
+++ b/script.c
@@ -1144,7 +1144,7 @@ void node_resolve(struct node_resolve *r) {
         if (deps.serial >= 0 && deps.serial < r->node_val_deps.num) {
           struct node *nv = *(struct node**) ulist_get(&r->node_val_deps, (unsigned int) deps.serial);
           const char *val = node_value(nv);
-          outdated = val == 0 || strcmp(val, deps.resource) != 0;
+          outdated = strcmp(val ? val : "", deps.resource) != 0;
         } else {
           outdated = true;
         }
-- 
2.43.0


From d59912ba7ffd453fead050e88d5f2f019d88397a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 11/46] fix: node names and error texts are not used as format
 strings

---
 node_error.c | 2 +-
 script.c     | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/node_error.c b/node_error.c
index 5635d6d..28bf380 100644
--- a/node_error.c
+++ b/node_error.c
@@ -14,7 +14,7 @@ static void _error_setup(struct node *n) {
       xstr_cat(xstr, node_value(nn));
     }
   }
-  node_fatal(AK_ERROR_FAIL, n, xstr_ptr(xstr));
+  node_fatal(AK_ERROR_FAIL, n, "%s", xstr_ptr(xstr));
 }
 
 int node_error_setup(struct node *n) {
diff --git a/script.c b/script.c
index 2629e8f..33c953f 100644
--- a/script.c
+++ b/script.c
@@ -136,7 +136,7 @@ void node_info(struct node *n, const char *fmt, ...) {
     va_end(ap);
     akinfo("%s: %s", n->name, xstr_ptr(xstr));
   } else {
-    akinfo(n->name, 0);
+    akinfo("%s", n->name);
   }
   xstr_destroy(xstr);
 }
@@ -150,7 +150,7 @@ void node_warn(struct node *n, const char *fmt, ...) {
     va_end(ap);
     akwarn("%s: %s", n->name, xstr_ptr(xstr));
   } else {
-    akinfo(n->name, 0);
+    akinfo("%s", n->name);
   }
   xstr_destroy(xstr);
 }
@@ -164,7 +164,7 @@ void node_fatal(int rc, struct node *n, const char *fmt, ...) {
     va_end(ap);
     akfatal(rc, "%s %s", n->name, xstr_ptr(xstr));
   } else {
-    akfatal(rc, n->name, 0);
+    akfatal(rc, "%s", n->name);
   }
   xstr_destroy(xstr);
 }
-- 
2.43.0


From 37bbfce45ef5e9d44d0d0a58c6dc7f5e9423d3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:04 +0000
Subject: [PATCH 12/46] fix: if conditions look at every operand and at the
 number of list elements

---
 node_if.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/node_if.c b/node_if.c
index f1c045e..ae18993 100644
--- a/node_if.c
+++ b/node_if.c
@@ -9,7 +9,7 @@
 static bool _if_defined_eval(struct node *mn) {
   struct node *n = mn->parent;
   for (struct node *nn = mn->child; nn; nn = nn->next) {
-    const char *val = node_value(mn->child);
+    const char *val = node_value(nn);
     if (val && *val != '\0' && node_env_get(n, val)) {
       return true;
     }
@@ -65,7 +65,7 @@ static bool _if_OR_eval(struct node *n, struct node *mn) {
 }
 
 static bool _if_AND_eval(struct node *n, struct node *mn) {
-  for (struct node *nn = mn->child; nn; nn = nn->child) {
+  for (struct node *nn = mn->child; nn; nn = nn->next) {
     if (!_if_cond_eval(n, nn)) {
       return false;
     }
@@ -110,8 +110,9 @@ static bool _if_cond_eval(struct node *n, struct node *mn) {
     if (is_vlist(op)) {
       struct vlist_iter iter;
       vlist_iter_init(op, &iter);
-      if (vlist_iter_next(&iter) && !(iter.len == 1 && iter.item[0] == '0')) {
-        eq = iter.len > 0 || vlist_iter_next(&iter);
+      if (vlist_iter_next(&iter)) {
+        eq = iter.len > 0 && !(iter.len == 1 && iter.item[0] == '0');
+        eq = vlist_iter_next(&iter) || eq;
       }
     } else {
       eq = (op && *op != '\0' && !(op[0] == '0' && op[1] == '\0'));
-- 
2.43.0


From d539973b346a0f6c8781195caab9b864ecb7423a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 13/46] fix: a negation is kept when a macro body is cloned

---
 script.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script.c b/script.c
index 33c953f..111d1b6 100644
--- a/script.c
+++ b/script.c
@@ -219,7 +219,7 @@ struct node* node_clone_and_register(struct node *n_) {
   struct xnode *n = (struct xnode*) n_;
   struct xnode *x = pool_calloc(g_env.pool, sizeof(*x));
   *x = *n;
-  x->base.flags = 0;
+  x->base.flags = n->base.flags & NODE_FLG_NEGATE;
   x->base.child = 0;
   x->base.next = 0;
   x->base.parent = 0;
-- 
2.43.0


From 73dea1e2315837959cfee1b9826a7369aa328067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:21 +0000
Subject: [PATCH 14/46] fix: --bindir does not end the parsing of options

---
 autark_core.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/autark_core.c b/autark_core.c
index d0d23c2..d04914f 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -674,7 +674,7 @@ void autark_run(int argc, const char **argv) {
     { "prefix", 1, 0, 'R' },
     { "dir", 1, 0, 'C' },
     { "jobs", 1, 0, 'J' },
-    { "bindir", 1, 0, -1 },
+    { "bindir", 1, 0, -7 },
     { "libdir", 1, 0, -2 },
     { "includedir", 1, 0, -3 },
     { "pkgconfdir", 1, 0, -4 },
@@ -721,7 +721,7 @@ void autark_run(int argc, const char **argv) {
       case 'C':
         cdir = pool_strdup(g_env.pool, optarg);
         break;
-      case -1:
+      case -7:
         g_env.install.bin_dir = pool_strdup(g_env.pool, optarg);
         break;
       case -2:
-- 
2.43.0


From 2ddc3447d7956fd8dcb6edf51d7ba6e442b032ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 15/46] fix: exported values are published before the
 dependency record and stale ones removed

---
 script.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/script.c b/script.c
index 111d1b6..6a76edc 100644
--- a/script.c
+++ b/script.c
@@ -1179,19 +1179,24 @@ void node_resolve(struct node_resolve *r) {
       xstr_printf(g_env.check.log, "%s: resolved outdated outdated=%d\n", r->n->name, r->resolve_outdated.num);
     }
     r->on_resolve(r);
+    // Exported values first, since the dependency record makes the rule up to date
+    if (r->on_env_value) {
+      if (!access(env_path_tmp, F_OK)) {
+        rc = utils_rename_file(env_path_tmp, env_path);
+        if (rc) {
+          akfatal(rc, "Rename failed of %s to %s", env_path_tmp, env_path);
+        }
+        env_created = true;
+      } else {
+        unlink(env_path); // Values exported by a previous run
+      }
+    }
     if (access(deps_path_tmp, F_OK) == 0) {
       rc = utils_rename_file(deps_path_tmp, deps_path);
       if (rc) {
         akfatal(rc, "Rename failed of %s to %s", deps_path_tmp, deps_path);
       }
     }
-    if (r->on_env_value && !access(env_path_tmp, F_OK)) {
-      rc = utils_rename_file(env_path_tmp, env_path);
-      if (rc) {
-        akfatal(rc, "Rename failed of %s to %s", env_path_tmp, env_path);
-      }
-      env_created = true;
-    }
   }
 
   if (r->on_env_value && (r->mode & NODE_RESOLVE_ENV_ALWAYS) && (env_created || !access(env_path, R_OK))) {
-- 
2.43.0


From ba2ef0026bf49c2243cdbd66d44f7d4f1286be35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:44 +0000
Subject: [PATCH 16/46] fix: check script and its arguments are dependencies of
 the check

---
 node_check.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/node_check.c b/node_check.c
index 8c9856a..b409486 100644
--- a/node_check.c
+++ b/node_check.c
@@ -61,6 +61,12 @@ static void _check_on_resolve(struct node_resolve *r) {
     node_fatal(rc, unit->n, "Failed to open depencency file: %s", r->deps_path_tmp);
   }
   node_add_unit_deps(n, &deps);
+  deps_add(&deps, DEPS_TYPE_FILE, 0, path, 0);
+  for (int i = 0; i < r->node_val_deps.num; ++i) {
+    struct node *nv = *(struct node**) ulist_get(&r->node_val_deps, i);
+    const char *val = node_value(nv);
+    deps_add(&deps, DEPS_TYPE_NODE_VALUE, 0, val ? val : "", i);
+  }
   deps_close(&deps);
 }
 
@@ -103,8 +109,15 @@ static void _check_script(struct node *n) {
     .user_data = unit,
     .on_env_value = _check_on_env_value,
     .on_resolve = _check_on_resolve,
+    .node_val_deps = { .usize = sizeof(struct node*) },
   };
 
+  for (struct node *nn = n->child; nn; nn = nn->next) {
+    if (node_is_value_may_be_dep_saved(nn)) {
+      ulist_push(&nr.node_val_deps, &nn);
+    }
+  }
+
   node_resolve(&nr);
 
   unit_pop();
-- 
2.43.0


From 7e77f6be50ff09f800191f5782eedc7afe0efad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 17/46] fix: arguments of a cached command substitution are its
 dependencies

---
 node_subst.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/node_subst.c b/node_subst.c
index 58133b8..ea8df01 100644
--- a/node_subst.c
+++ b/node_subst.c
@@ -131,6 +131,11 @@ static void _subst_value_proc_cache_on_resolve(struct node_resolve *r) {
     node_fatal(rc, n, "Failed to open dependency file: %s", r->deps_path_tmp);
   }
   node_add_unit_deps(n, &deps);
+  for (int i = 0; i < r->node_val_deps.num; ++i) {
+    struct node *nv = *(struct node**) ulist_get(&r->node_val_deps, i);
+    const char *val = node_value(nv);
+    deps_add(&deps, DEPS_TYPE_NODE_VALUE, 0, val ? val : "", i);
+  }
   deps_add(&deps, DEPS_TYPE_FILE, 0, path, 0);
   deps_close(&deps);
 }
-- 
2.43.0


From 7b2bbd13fd7787485695abd01b469c38be6556f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:34 +0000
Subject: [PATCH 18/46] fix: a command substitution is evaluated for each
 foreach item it depends on

---
 node_subst.c | 20 ++++++++++++++++++++
 script.c     |  4 ++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/node_subst.c b/node_subst.c
index ea8df01..c5b3109 100644
--- a/node_subst.c
+++ b/node_subst.c
@@ -70,7 +70,24 @@ static void _subst_stdout_handler(char *buf, size_t buflen, struct spawn *s) {
   fprintf(stdout, "%s", buf);
 }
 
+/// The program or its arguments depend on the current foreach item
+static bool _subst_is_foreach_dep(struct node *n) {
+  struct node_foreach *fe = node_find_parent_foreach(n);
+  if (!fe) {
+    return false;
+  }
+  unsigned cnt = fe->access_cnt;
+  for (struct node *nn = n->child; nn; nn = nn->next) {
+    node_value(nn);
+  }
+  return fe->access_cnt != cnt;
+}
+
 static const char* _subst_value_proc(struct node *n) {
+  if (_subst_is_foreach_dep(n)) {
+    free(n->impl);
+    n->impl = 0;
+  }
   if (n->impl) {
     return n->impl;
   }
@@ -141,6 +158,9 @@ static void _subst_value_proc_cache_on_resolve(struct node_resolve *r) {
 }
 
 static const char* _subst_value_proc_cache(struct node *n) {
+  if (_subst_is_foreach_dep(n)) {
+    return _subst_value_proc(n);
+  }
   if (n->impl) {
     return n->impl;
   }
diff --git a/script.c b/script.c
index 6a76edc..815d9d8 100644
--- a/script.c
+++ b/script.c
@@ -1010,9 +1010,9 @@ bool node_is_value_may_be_dep_saved(struct node *n) {
   if (node_is_can_be_value(n)) {
     struct node_foreach *fe = node_find_parent_foreach(n);
     if (fe) {
-      fe->access_cnt = 0;
+      unsigned cnt = fe->access_cnt;
       node_value(n);
-      if (fe->access_cnt > 0) {
+      if (fe->access_cnt != cnt) {
         return false;
       }
     }
-- 
2.43.0


From 7ab11686cb8daa6a5c42b186c14115c85d99451b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:49 +0000
Subject: [PATCH 19/46] fix: the file extension of a basename is its second
 argument

---
 node_basename.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_basename.c b/node_basename.c
index 1425fd6..1fa1ee5 100644
--- a/node_basename.c
+++ b/node_basename.c
@@ -23,7 +23,7 @@ static const char* _basename_value(struct node *n) {
     node_fatal(AK_ERROR_SCRIPT_SYNTAX, n, "Argument is not set");
   }
   if (n->child->next) {
-    replace_ext = node_value(n->child);
+    replace_ext = node_value(n->child->next);
   }
   struct xstr *xstr = xstr_create_empty();
   const char *dp = strrchr(val, '.');
-- 
2.43.0


From aa436967c395a30bc423f9568c4dc867022a6d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 20/46] fix: file reading closes its descriptor and reports
 files which are too large

---
 utils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils.c b/utils.c
index 60be479..abbae35 100644
--- a/utils.c
+++ b/utils.c
@@ -21,7 +21,7 @@ struct value utils_file_as_buf(const char *path, ssize_t buflen_max) {
     xstr_destroy(xstr);
     return ret;
   }
-  while (buflen_max != 0 && ret.error == 0) {
+  while (ret.error == 0) {
     ssize_t rb = read(fd, buf, sizeof(buf));
     if (rb > 0) {
       if (buflen_max > -1) {
@@ -41,6 +41,7 @@ struct value utils_file_as_buf(const char *path, ssize_t buflen_max) {
       break;
     }
   }
+  close(fd);
   ret.len = xstr_size(xstr);
   ret.buf = xstr_destroy_keep_ptr(xstr);
   return ret;
-- 
2.43.0


From 642c576dc9b5d0ae7535ac3fda20edc02daa9f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 21/46] fix: incomplete copies and writes of files are errors

---
 utils.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/utils.c b/utils.c
index abbae35..35a33ea 100644
--- a/utils.c
+++ b/utils.c
@@ -71,7 +71,9 @@ int utils_file_write_buf(const char *path, const char *buf, size_t len, bool app
       return ret;
     }
   }
-  close(fd);
+  if (close(fd) == -1) {
+    return errno;
+  }
   return 0;
 }
 
@@ -92,8 +94,7 @@ int utils_copy_file(const char *src, const char *dst) {
   while (1) {
     nr = fread(buf, 1, sizeof(buf), sf);
     if (nr) {
-      nr = fwrite(buf, 1, nr, df);
-      if (!nr) {
+      if (fwrite(buf, 1, nr, df) != nr) {
         rc = AK_ERROR_IO;
         break;
       }
@@ -105,7 +106,9 @@ int utils_copy_file(const char *src, const char *dst) {
     }
   }
   fclose(sf);
-  fclose(df);
+  if (fclose(df) && !rc) {
+    rc = AK_ERROR_IO;
+  }
   return rc;
 }
 
-- 
2.43.0


From a257b8f231b48a6be10923840e8bc380d308da05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:28 +0000
Subject: [PATCH 22/46] fix: failures to finish an installed file are errors

---
 node_install.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/node_install.c b/node_install.c
index b642b86..30d1453 100644
--- a/node_install.c
+++ b/node_install.c
@@ -70,7 +70,7 @@ static void _install_file(struct _install_on_resolve_ctx *ctx, const char *src,
   for (ssize_t r; ; ) {
     r = read(in_fd, buf, sizeof(buf));
     if (r < 0) {
-      if (errno == EAGAIN) {
+      if (errno == EAGAIN || errno == EINTR) {
         continue;
       } else {
         node_fatal(errno, n, "Error reading file: %s", src);
@@ -83,7 +83,7 @@ static void _install_file(struct _install_on_resolve_ctx *ctx, const char *src,
       if (w >= 0) {
         tow -= w;
       } else if (w < 0) {
-        if (errno == EAGAIN) {
+        if (errno == EAGAIN || errno == EINTR) {
           continue;
         }
         node_fatal(errno, n, "Error writing file: %s", dst);
@@ -91,7 +91,9 @@ static void _install_file(struct _install_on_resolve_ctx *ctx, const char *src,
     }
   }
 
-  fchmod(out_fd, st->st_mode);
+  if (fchmod(out_fd, st->st_mode) == -1) {
+    node_fatal(errno, n, "Failed to set permissions on file: %s", dst);
+  }
 #ifdef __APPLE__
   struct timespec times[2] = { st->st_atime, st->st_mtime };
 #else
@@ -100,7 +102,9 @@ static void _install_file(struct _install_on_resolve_ctx *ctx, const char *src,
   futimens(out_fd, times);
 
   close(in_fd);
-  close(out_fd);
+  if (close(out_fd) == -1) {
+    node_fatal(errno, n, "Error writing file: %s", dst);
+  }
 }
 
 static void _install_do(struct node_resolve *r, const char *src, const char *target) {
@@ -140,6 +144,9 @@ static void _install_on_resolve(struct node_resolve *r) {
   struct node *n = r->n;
   struct _install_on_resolve_ctx *ctx = r->user_data;
   const char *target = node_value(ctx->n_target);
+  if (!target) {
+    node_fatal(AK_ERROR_FAIL, n, "No target dir specified");
+  }
 
   if (!path_is_absolute(target)) {
     target = pool_printf(r->pool, "%s/%s", g_env.install.prefix_dir, target);
-- 
2.43.0


From b7d848a71129cd85b9914db1d9d979a42858073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:35 +0000
Subject: [PATCH 23/46] fix: absolute paths are normalised wherever their dots
 are

---
 paths.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/paths.c b/paths.c
index 83fc220..3fb93b9 100644
--- a/paths.c
+++ b/paths.c
@@ -83,9 +83,8 @@ char* path_normalize_cwd(const char *path, const char *cwd, char buf[PATH_MAX])
   akassert(cwd);
   if (path[0] == '/') {
     utils_strncpy(buf, path, PATH_MAX);
-    char *p = strchr(buf, '.');
-    if (  p == 0
-       || !(*(p - 1) == '/' && (p[1] == '/' || p[1] == '.' || p[1] == '\0'))) {
+    size_t len = strlen(buf);
+    if (!strstr(buf, "/.") && !strstr(buf, "//") && (len == 1 || buf[len - 1] != '/')) {
       return buf;
     }
   } else {
-- 
2.43.0


From fa75a44a00c8086b36d18ee3baffafb16a11d0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:18 +0000
Subject: [PATCH 24/46] fix: implicit macro argument index is bounded

---
 node_call.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/node_call.c b/node_call.c
index 57cf65b..321171a 100644
--- a/node_call.c
+++ b/node_call.c
@@ -67,6 +67,10 @@ static int _call_macro_visit(struct node *n, int lvl, void *d) {
     } else {
       call->arg_idx++;
       idx = call->arg_idx;
+      if (idx >= MACRO_MAX_ARGS_NUM) {
+        node_fatal(AK_ERROR_SCRIPT_SYNTAX, n, "Exceeded the maximum number of macro args: " Q_STR(MACRO_MAX_ARGS_NUM));
+        return 0;
+      }
     }
     call->arg_idx = idx;
     n = call->args[idx];
-- 
2.43.0


From 42618d6fc259c72b063316223ac28938d7946233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:20 +0000
Subject: [PATCH 25/46] fix: a popped unit context is not read from released
 storage

---
 autark_core.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/autark_core.c b/autark_core.c
index d04914f..1d8da19 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -195,7 +195,7 @@ void unit_push(struct unit *unit, struct node *n) {
 
 struct unit* unit_pop(void) {
   akassert(g_env.stack_units.num > 0);
-  struct unit_ctx *ctx = (struct unit_ctx*) ulist_get(&g_env.stack_units, g_env.stack_units.num - 1);
+  struct unit_ctx ctx = *(struct unit_ctx*) ulist_get(&g_env.stack_units, g_env.stack_units.num - 1);
   ulist_pop(&g_env.stack_units);
   struct unit_ctx peek = unit_peek_ctx();
   if (peek.unit) {
@@ -204,7 +204,7 @@ struct unit* unit_pop(void) {
   } else {
     unsetenv(AUTARK_UNIT);
   }
-  return ctx->unit;
+  return ctx.unit;
 }
 
 struct unit* unit_peek(void) {
-- 
2.43.0


From bc6a5fa5f4b6dfbd98a1f533240549195f6e53a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:37 +0000
Subject: [PATCH 26/46] fix: cleaning never removes the project root

---
 autark_core.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/autark_core.c b/autark_core.c
index 1d8da19..1df8389 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -387,6 +387,9 @@ void autark_build_prepare(const char *script_path) {
   }
 
   if (g_env.project.cleanup) {
+    if (strcmp(g_env.project.cache_dir, g_env.project.root_dir) == 0) {
+      akfatal(AK_ERROR_FAIL, "Project root dir used as cache dir cannot be cleaned", 0);
+    }
     if (path_is_dir(g_env.project.cache_dir)) {
       int rc = path_rm_cache(g_env.project.cache_dir);
       if (rc) {
-- 
2.43.0


From 8f0418ada76b5f5af1c20c4c095b5029888fae38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:16 +0000
Subject: [PATCH 27/46] fix: incomplete reading and writing of configured files
 are errors

---
 node_configure.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/node_configure.c b/node_configure.c
index 5c3936b..fc0e3ef 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -171,8 +171,13 @@ static void _process_file(struct node *n, const char *src, const char *tgt, stru
     node_fatal(errno, n, "Failed to set permissions on target file: %s", tgt);
   }
 
+  if (ferror(f)) {
+    node_fatal(AK_ERROR_IO, n, "File read fail: %s", src);
+  }
   fclose(f);
-  fclose(t);
+  if (fclose(t) == EOF) {
+    node_fatal(errno, n, "File write fail: %s", tgt);
+  }
 
   if (xstr) {
     int rc = utils_rename_file(tgt, src);
@@ -239,7 +244,10 @@ static void _configure_on_resolve(struct node_resolve *r) {
     deps_add(&deps, DEPS_TYPE_FILE, 's', src, 0);
   }
 
-  deps_close(&deps);
+  rc = deps_close(&deps);
+  if (rc) {
+    node_fatal(rc, n, "Failed to write dependency file: %s", r->deps_path_tmp);
+  }
 
   ulist_destroy_keep(&rlist);
 }
-- 
2.43.0


From e81d2cb31b316a56aceebf6b60775110dcf564fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:16 +0000
Subject: [PATCH 28/46] fix: a product directory which cannot be created is an
 error

---
 script.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/script.c b/script.c
index 815d9d8..09c1119 100644
--- a/script.c
+++ b/script.c
@@ -934,7 +934,10 @@ void node_product_add_raw(struct node *n, const char *prod) {
   utils_strncpy(buf, prod, sizeof(buf));
   char *dir = path_dirname(buf);
   if (dir) {
-    path_mkdirs(dir);
+    int rc = path_mkdirs(dir);
+    if (rc) {
+      node_fatal(rc, n, "Failed to create directory: %s", dir);
+    }
   }
   map_put_str(s->products, prod, n);
 }
-- 
2.43.0


From a8c5bca7bfa958c6fbd4befebc070881dea34c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:16 +0000
Subject: [PATCH 29/46] fix: failures of writing dependency records and
 exported values are errors

---
 autark_core.c  | 18 ++++++++++++++----
 deps.c         | 27 +++++++++++++++++++++------
 deps.h         |  4 +++-
 node_cc.c      |  5 ++++-
 node_check.c   |  5 ++++-
 node_install.c |  5 ++++-
 node_run.c     |  5 ++++-
 node_subst.c   |  5 ++++-
 8 files changed, 58 insertions(+), 16 deletions(-)

diff --git a/autark_core.c b/autark_core.c
index 1df8389..4bdce20 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -461,10 +461,14 @@ static void _on_command_set(int argc, const char **argv) {
       if (g_env.verbose) {
         akinfo("autark set %s", kv);
       }
-      fprintf(f, "%s\n", kv);
+      if (fprintf(f, "%s\n", kv) < 0) {
+        akfatal(errno, "Failed to write file: %s", env_path);
+      }
     }
   }
-  fclose(f);
+  if (fclose(f) == EOF) {
+    akfatal(errno, "Failed to write file: %s", env_path);
+  }
 }
 
 static void _on_command_dep(int argc, const char **argv) {
@@ -491,7 +495,10 @@ static void _on_command_dep(int argc, const char **argv) {
   if (rc) {
     akfatal(rc, "Failed to write deps file: %s", deps_path);
   }
-  deps_close(&deps);
+  rc = deps_close(&deps);
+  if (rc) {
+    akfatal(rc, "Failed to write deps file: %s", deps_path);
+  }
 }
 
 static void _on_command_dep_env(int argc, const char **argv) {
@@ -518,7 +525,10 @@ static void _on_command_dep_env(int argc, const char **argv) {
   if (rc) {
     akfatal(rc, "Failed to write deps file: %s", deps_path);
   }
-  deps_close(&deps);
+  rc = deps_close(&deps);
+  if (rc) {
+    akfatal(rc, "Failed to write deps file: %s", deps_path);
+  }
 }
 
 static void _on_command_glob(int argc, const char **argv, const char *cdir) {
diff --git a/deps.c b/deps.c
index 9bb1f44..11554ac 100644
--- a/deps.c
+++ b/deps.c
@@ -22,7 +22,9 @@ int deps_open(const char *path, int omode, struct deps *d) {
     return errno;
   }
   if (fseek(d->file, 0, SEEK_SET) < 0) {
-    return errno;
+    rc = errno;
+    fclose(d->file);
+    d->file = 0;
   }
   return rc;
 }
@@ -179,9 +181,13 @@ static int _deps_add(struct deps *d, char type, char flags, const char *resource
 
   long int off = ftell(d->file);
   if (off < 0) {
-    return errno;
+    d->error = errno;
+    return d->error;
+  }
+  if (fseek(d->file, 0, SEEK_END) < 0) {
+    d->error = errno;
+    return d->error;
   }
-  fseek(d->file, 0, SEEK_END);
 
   if (type != DEPS_TYPE_ALIAS && type != DEPS_TYPE_ENV && type != DEPS_TYPE_SYS_ENV) {
     if (fprintf(d->file, "%c%c%s\1%" PRId64 "\n", type, flags, resource, serial) < 0) {
@@ -193,9 +199,13 @@ static int _deps_add(struct deps *d, char type, char flags, const char *resource
     }
   }
 
-  fseek(d->file, off, SEEK_SET);
+  if (fseek(d->file, off, SEEK_SET) < 0 && !rc) {
+    rc = errno;
+  }
   if (!rc) {
     ++d->num_registered;
+  } else {
+    d->error = rc;
   }
   return rc;
 }
@@ -216,11 +226,16 @@ int deps_add_sys_env(struct deps *d, char flags, const char *key, const char *va
   return _deps_add(d, DEPS_TYPE_SYS_ENV, flags, value, key, 0);
 }
 
-void deps_close(struct deps *d) {
+int deps_close(struct deps *d) {
+  int rc = 0;
   if (d && d->file) {
-    fclose(d->file);
+    if (fclose(d->file) == EOF && !d->error) {
+      d->error = errno;
+    }
     d->file = 0;
+    rc = d->error;
   }
+  return rc;
 }
 
 void deps_prune_all(const char *path) {
diff --git a/deps.h b/deps.h
index e69a101..180820e 100644
--- a/deps.h
+++ b/deps.h
@@ -26,6 +26,7 @@ struct deps {
   char    type;
   char    flags;
   int     num_registered;   /// Number of deps registerd in the current session
+  int     error;            /// First error of writing records
   int64_t serial;
   const char *resource;
   const char *alias;
@@ -47,7 +48,8 @@ int deps_add_env(struct deps *d, char flags, const char *key, const char *value)
 
 int deps_add_sys_env(struct deps *d, char flags, const char *key, const char *value);
 
-void deps_close(struct deps*);
+/// Returns an error if any of added records has not been written completely.
+int deps_close(struct deps*);
 
 void deps_prune_all(const char *path);
 
diff --git a/node_cc.c b/node_cc.c
index 6f8a555..1aea666 100644
--- a/node_cc.c
+++ b/node_cc.c
@@ -297,7 +297,10 @@ static void _cc_on_resolve(struct node_resolve *r) {
     }
   }
 
-  deps_close(&deps);
+  rc = deps_close(&deps);
+  if (rc) {
+    node_fatal(rc, ctx->n, "Failed to write dependency file: %s", r->deps_path_tmp);
+  }
   ulist_destroy_keep(&rlist);
   ulist_destroy_keep(&tasks);
   map_destroy(fmap);
diff --git a/node_check.c b/node_check.c
index b409486..e51a730 100644
--- a/node_check.c
+++ b/node_check.c
@@ -67,7 +67,10 @@ static void _check_on_resolve(struct node_resolve *r) {
     const char *val = node_value(nv);
     deps_add(&deps, DEPS_TYPE_NODE_VALUE, 0, val ? val : "", i);
   }
-  deps_close(&deps);
+  rc = deps_close(&deps);
+  if (rc) {
+    node_fatal(rc, unit->n, "Failed to write dependency file: %s", r->deps_path_tmp);
+  }
 }
 
 static char* _resolve_check_path(struct pool *pool, struct node *n, const char *script, struct unit **out_u) {
diff --git a/node_install.c b/node_install.c
index 30d1453..bc51ea6 100644
--- a/node_install.c
+++ b/node_install.c
@@ -202,7 +202,10 @@ static void _install_on_resolve(struct node_resolve *r) {
     _install_dep_add(&deps, src, target);
   }
 
-  deps_close(&deps);
+  rc = deps_close(&deps);
+  if (rc) {
+    node_fatal(rc, n, "Failed to write dependency file: %s", r->deps_path_tmp);
+  }
   ulist_destroy_keep(&rlist);
 }
 
diff --git a/node_run.c b/node_run.c
index 12eecec..8d899e0 100644
--- a/node_run.c
+++ b/node_run.c
@@ -215,7 +215,10 @@ static void _run_on_resolve(struct node_resolve *r) {
     deps_add(&deps, DEPS_TYPE_FILE, 'f', path, 0);
   }
 
-  deps_close(&deps);
+  rc = deps_close(&deps);
+  if (rc) {
+    node_fatal(rc, n, "Failed to write dependency file: %s", r->deps_path_tmp);
+  }
 }
 
 static bool _run_setup_foreach(struct node *n) {
diff --git a/node_subst.c b/node_subst.c
index c5b3109..a31d32b 100644
--- a/node_subst.c
+++ b/node_subst.c
@@ -154,7 +154,10 @@ static void _subst_value_proc_cache_on_resolve(struct node_resolve *r) {
     deps_add(&deps, DEPS_TYPE_NODE_VALUE, 0, val ? val : "", i);
   }
   deps_add(&deps, DEPS_TYPE_FILE, 0, path, 0);
-  deps_close(&deps);
+  rc = deps_close(&deps);
+  if (rc) {
+    node_fatal(rc, n, "Failed to write dependency file: %s", r->deps_path_tmp);
+  }
 }
 
 static const char* _subst_value_proc_cache(struct node *n) {
-- 
2.43.0


From 059f4de4e8b0ecd3edf31541f59607e576c65573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:48 +0000
Subject: [PATCH 30/46] fix: absent values do not crash rules

---
 node_check.c     | 3 +++
 node_configure.c | 3 ++-
 node_foreach.c   | 8 ++++++--
 node_set.c       | 4 ++--
 script.c         | 5 ++++-
 utils.c          | 3 +++
 xstr.c           | 3 +++
 7 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/node_check.c b/node_check.c
index e51a730..976dd73 100644
--- a/node_check.c
+++ b/node_check.c
@@ -91,6 +91,9 @@ static char* _resolve_check_path(struct pool *pool, struct node *n, const char *
 
 static void _check_script(struct node *n) {
   const char *script = node_value(n);
+  if (!script) {
+    node_fatal(AK_ERROR_SCRIPT_SYNTAX, n, "No check script specified");
+  }
   if (g_env.verbose) {
     node_info(n->parent, "%s", script);
   }
diff --git a/node_configure.c b/node_configure.c
index fc0e3ef..bc2db50 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -308,13 +308,14 @@ static void _configure_setup(struct node *n) {
     const char *v = node_value(nn);
     if (is_vlist(v)) {
       struct vlist_iter iter;
+      vlist_iter_init(v, &iter);
       while (vlist_iter_next(&iter)) {
         char buf[iter.len + 1];
         memcpy(buf, iter.item, iter.len);
         buf[iter.len] = '\0';
         _setup_item(n, buf);
       }
-    } else {
+    } else if (v && *v != '\0') {
       _setup_item(n, v);
     }
   }
diff --git a/node_foreach.c b/node_foreach.c
index c178808..cc48424 100644
--- a/node_foreach.c
+++ b/node_foreach.c
@@ -9,9 +9,13 @@ static void _foreach_setup(struct node *n) {
   if (!n->child) {
     node_fatal(AK_ERROR_SCRIPT_SYNTAX, n, "Foreach must have a variable name as first parameter");
   }
-   struct node_foreach *fe = xcalloc(1, sizeof(*fe));
+  const char *name = node_value(n->child);
+  if (!name) {
+    node_fatal(AK_ERROR_SCRIPT_SYNTAX, n, "Foreach must have a variable name as first parameter");
+  }
+  struct node_foreach *fe = xcalloc(1, sizeof(*fe));
   n->impl = fe;
-  fe->name = xstrdup(node_value(n->child));
+  fe->name = xstrdup(name);
 
   struct xstr *xstr = xstr_create_empty();
   const char *v = node_value(n->child->next);
diff --git a/node_set.c b/node_set.c
index ebd28ab..fe30ad1 100644
--- a/node_set.c
+++ b/node_set.c
@@ -102,7 +102,7 @@ static const char* _set_value_get(struct node *n) {
 
   n->impl = (void*) (uintptr_t) -1;
 
-  struct node *nn = n->child->next;
+  struct node *nn = n->child ? n->child->next : 0;
   if (!nn) {
     n->impl = xstrdup("");
     n->recur_next.active = false;
@@ -111,7 +111,7 @@ static const char* _set_value_get(struct node *n) {
 
   if (!nn->next && nn->value[0] != '.') { // Single value
     const char *v = node_value(nn);
-    n->impl = xstrdup(v);
+    n->impl = xstrdup(v ? v : "");
     n->recur_next.active = false;
     return n->impl;
   }
diff --git a/script.c b/script.c
index 09c1119..654738f 100644
--- a/script.c
+++ b/script.c
@@ -906,6 +906,9 @@ void node_product_add(struct node *n, const char *prod, char pathbuf[PATH_MAX])
   if (!pathbuf) {
     pathbuf = buf;
   }
+  if (!prod) {
+    return;
+  }
   if (is_vlist(prod)) {
     struct vlist_iter iter;
     vlist_iter_init(prod, &iter);
@@ -1219,7 +1222,7 @@ void node_resolve(struct node_resolve *r) {
       }
       fclose(f);
     } else {
-      akfatal(rc, "Failed to open env file: %s", env_path);
+      akfatal(errno, "Failed to open env file: %s", env_path);
     }
   }
 
diff --git a/utils.c b/utils.c
index 35a33ea..28fffc9 100644
--- a/utils.c
+++ b/utils.c
@@ -152,6 +152,9 @@ long long utils_strtoll(const char *v, int base, int *rcp) {
 }
 
 void utils_split_values_add(const char *v, struct xstr *xstr) {
+  if (!v) {
+    return;
+  }
   if (is_vlist(v)) {
     xstr_cat(xstr, v);
     return;
diff --git a/xstr.c b/xstr.c
index a1563a0..65afaac 100644
--- a/xstr.c
+++ b/xstr.c
@@ -42,6 +42,9 @@ void xstr_cat2(struct xstr *xstr, const void *buf, size_t size) {
 }
 
 void xstr_cat(struct xstr *xstr, const char *buf) {
+  if (!buf) {
+    return;
+  }
   size_t size = strlen(buf);
   xstr_cat2(xstr, buf, size);
 }
-- 
2.43.0


From f33e02fa15cae5acab5bc45edcc0fbfcc3861615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 31/46] fix: a variable defined by itself does not recurse
 without end

---
 node_set.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/node_set.c b/node_set.c
index fe30ad1..57c2a68 100644
--- a/node_set.c
+++ b/node_set.c
@@ -43,7 +43,11 @@ static void _set_init_impl(struct node *n) {
   }
   unsigned tag = 0;
   struct node *nn = unit_env_get_node(unit, key, &tag);
-  if (nn && nn != n) {
+  bool cycle = false;
+  for (struct node *p = nn; p && !cycle; p = p->recur_next.n) {
+    cycle = p == n;
+  }
+  if (nn && !cycle) {
     n->recur_next.n = nn;
   }
   unit_env_set_node(unit, key, n, 0);
@@ -79,8 +83,8 @@ static void _set_build(struct node *n) {
 }
 
 static const char* _set_value_get(struct node *n) {
-  if (n->recur_next.active && n->recur_next.n) {
-    return _set_value_get(n->recur_next.n);
+  if (n->recur_next.active) {
+    return n->recur_next.n ? _set_value_get(n->recur_next.n) : 0;
   }
   n->recur_next.active = true;
 
-- 
2.43.0


From f2d09698e01f861d60acd55b129f44095fa4bc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:28 +0000
Subject: [PATCH 32/46] fix: a partially repeated configure keeps its variable
 dependencies

---
 node_configure.c | 23 +++++++++++++++++++++++
 script.c         |  1 +
 script.h         |  1 +
 3 files changed, 25 insertions(+)

diff --git a/node_configure.c b/node_configure.c
index bc2db50..932cff4 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -8,6 +8,7 @@
 #include "ulist.h"
 #include "alloc.h"
 #include "utils.h"
+#include "map.h"
 
 #include <string.h>
 #include <stdio.h>
@@ -188,6 +189,24 @@ static void _process_file(struct node *n, const char *src, const char *tgt, stru
   }
 }
 
+/// Variables used by sources which are not processed in this run
+static void _configure_keep_env_deps(struct node_resolve *r, struct deps *deps) {
+  struct deps prev;
+  int rc = deps_open(r->deps_path, DEPS_OPEN_READONLY, &prev);
+  if (rc) {
+    node_fatal(rc, r->n, "Failed to open dependency file: %s", r->deps_path);
+  }
+  struct map *keys = map_create_str(map_k_free);
+  while (deps_cur_next(&prev)) {
+    if (prev.type == DEPS_TYPE_ENV && !map_get(keys, prev.alias)) {
+      map_put_str(keys, prev.alias, (void*) (intptr_t) 1);
+      deps_add_env(deps, prev.flags, prev.alias, prev.resource);
+    }
+  }
+  map_destroy(keys);
+  deps_close(&prev);
+}
+
 static void _configure_on_resolve(struct node_resolve *r) {
   struct node *n = r->n;
   struct _configure_ctx *ctx = n->impl;
@@ -239,6 +258,10 @@ static void _configure_on_resolve(struct node_resolve *r) {
     free(src);
   }
 
+  if (slist == &rlist) {
+    _configure_keep_env_deps(r, &deps);
+  }
+
   for (int i = 0; i < ctx->sources.num; ++i) {
     char *src = *(char**) ulist_get(&ctx->sources, i);
     deps_add(&deps, DEPS_TYPE_FILE, 's', src, 0);
diff --git a/script.c b/script.c
index 654738f..5358751 100644
--- a/script.c
+++ b/script.c
@@ -1129,6 +1129,7 @@ void node_resolve(struct node_resolve *r) {
 
   r->pool = pool;
   r->num_deps = 0;
+  r->deps_path = deps_path;
   r->deps_path_tmp = deps_path_tmp;
   r->env_path_tmp = env_path_tmp;
 
diff --git a/script.h b/script.h
index b41c80c..b22c332 100644
--- a/script.h
+++ b/script.h
@@ -176,6 +176,7 @@ struct node_resolve {
   void  (*on_init)(struct node_resolve*);
   void  (*on_env_value)(struct node_resolve*, const char *key, const char *val);
   void  (*on_resolve)(struct node_resolve*);
+  const char  *deps_path;
   const char  *deps_path_tmp;
   const char  *env_path_tmp;
   struct ulist resolve_outdated; // struct resolve_outdated
-- 
2.43.0


From 473f9c255fcd67145dce19c4decaa25314fbc9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:13 +0000
Subject: [PATCH 33/46] fix: the variable which names the compiler is a
 dependency of cc/cxx rules

---
 node_cc.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/node_cc.c b/node_cc.c
index 1aea666..40eca20 100644
--- a/node_cc.c
+++ b/node_cc.c
@@ -26,6 +26,7 @@ struct _cc_ctx {
   struct node *n_consumes;
   struct node *n_objects;
   const char  *cc;
+  const char  *cc_key;      // Variable looked up for a compiler not specified in the rule
   const char *objskey;
   struct ulist consumes;    // sizeof(char*)
   int num_failed;
@@ -191,6 +192,11 @@ static void _cc_on_resolve(struct node_resolve *r) {
   }
   node_add_unit_deps(ctx->n, &deps);
 
+  if (ctx->cc_key) {
+    const char *val = node_env_get(ctx->n, ctx->cc_key);
+    deps_add_env(&deps, 0, ctx->cc_key, val ? val : "");
+  }
+
   for (int i = 0; i < r->node_val_deps.num; ++i) {
     struct node *nv = *(struct node**) ulist_get(&r->node_val_deps, i);
     const char *val = node_value(nv);
@@ -422,6 +428,7 @@ static void _cc_setup(struct node *n) {
   if (!ctx->cc) {
     const char *key = strcmp(n->value, "cc") == 0 ? "CC" : "CXX";
     if (key) {
+      ctx->cc_key = key;
       ctx->cc = pool_strdup(ctx->pool, node_env_get(n, key));
       if (g_env.verbose && ctx->cc) {
         node_info(n, "Found '%s' compiler in ${%s}", ctx->cc, key);
-- 
2.43.0


From e62dcfc535706ded07d41333a11c01621fc53b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:10 +0000
Subject: [PATCH 34/46] fix: the item list of a foreach is a dependency of its
 run rule

---
 node_run.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/node_run.c b/node_run.c
index 8d899e0..afab2af 100644
--- a/node_run.c
+++ b/node_run.c
@@ -330,6 +330,14 @@ static void _run_build(struct node *n) {
   r.force_outdated = n->post_build != 0
                      || node_find_direct_child(n, NODE_TYPE_VALUE, "always") != 0;
 
+  if (ctx.fe) { // Commands depend on the list of items
+    struct node *nf = node_find_parent_of_type(n, NODE_TYPE_FOREACH);
+    struct node *nl = nf && nf->child ? nf->child->next : 0;
+    if (node_is_value_may_be_dep_saved(nl)) {
+      ulist_push(&r.node_val_deps, &nl);
+    }
+  }
+
   for (struct node *nn = n->child; nn; nn = nn->next) {
     if (strcmp(nn->value, "exec") == 0 || strcmp(nn->value, "shell") == 0) {
       for (struct node *cn = nn->child; cn; cn = cn->next) {
-- 
2.43.0


From 9bea6cfb4ec4459393e3d355c672bcb1b7cc6638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:19 +0000
Subject: [PATCH 35/46] fix: values mixing a foreach item with variables are
 dependencies of the run rule

---
 script.c | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/script.c b/script.c
index 5358751..3d5fb89 100644
--- a/script.c
+++ b/script.c
@@ -1013,18 +1013,7 @@ bool node_is_value_may_be_dep_saved(struct node *n) {
   if (!n || n->type == NODE_TYPE_VALUE) { // Hardcoded value
     return false;
   }
-  if (node_is_can_be_value(n)) {
-    struct node_foreach *fe = node_find_parent_foreach(n);
-    if (fe) {
-      unsigned cnt = fe->access_cnt;
-      node_value(n);
-      if (fe->access_cnt != cnt) {
-        return false;
-      }
-    }
-    return true;
-  }
-  return false;
+  return node_is_can_be_value(n);
 }
 
 struct node* node_consumes_resolve(
-- 
2.43.0


From 8ef21ce81ef97c21a5e6a0cf85fe3da24687a15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:00 +0000
Subject: [PATCH 36/46] fix: refuse to clean a cache dir which leads to the
 project root through symbolic links

---
 autark_core.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/autark_core.c b/autark_core.c
index 4bdce20..753298f 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -387,9 +387,15 @@ void autark_build_prepare(const char *script_path) {
   }
 
   if (g_env.project.cleanup) {
+    char cache_real[PATH_MAX], root_real[PATH_MAX];
     if (strcmp(g_env.project.cache_dir, g_env.project.root_dir) == 0) {
       akfatal(AK_ERROR_FAIL, "Project root dir used as cache dir cannot be cleaned", 0);
     }
+    // The same check for directories reached through symbolic links
+    if (  path_real(g_env.project.cache_dir, cache_real) && path_real(g_env.project.root_dir, root_real)
+       && (strcmp(cache_real, root_real) == 0 || path_is_prefix_for(cache_real, root_real, 0))) {
+      akfatal(AK_ERROR_FAIL, "Project root dir is inside of cache dir which cannot be cleaned", 0);
+    }
     if (path_is_dir(g_env.project.cache_dir)) {
       int rc = path_rm_cache(g_env.project.cache_dir);
       if (rc) {
-- 
2.43.0


From cac1cc33a00fc17c98d3708d762db5dd848eba71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:21 +0000
Subject: [PATCH 37/46] fix: macro argument index was truncated to int before
 its range check

---
 node_call.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/node_call.c b/node_call.c
index 321171a..b25f87c 100644
--- a/node_call.c
+++ b/node_call.c
@@ -57,13 +57,13 @@ static int _call_macro_visit(struct node *n, int lvl, void *d) {
     int rc = 0;
 
     if (n->child) {
-      idx = utils_strtol(n->child->value, 10, &rc);
-      if (rc || idx < 1 || idx >= MACRO_MAX_ARGS_NUM) {
-        node_fatal(rc, n, "Invalid macro arg index: %d", idx);
+      long val = utils_strtol(n->child->value, 10, &rc);
+      if (rc || val < 1 || val >= MACRO_MAX_ARGS_NUM) {
+        node_fatal(rc, n, "Invalid macro arg index: %s", n->child->value);
         return 0;
       }
       ret = INT_MAX;
-      idx--;
+      idx = val - 1;
     } else {
       call->arg_idx++;
       idx = call->arg_idx;
-- 
2.43.0


From ad1c89401c593c8997c364af8962da3e8ac12149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:57 +0000
Subject: [PATCH 38/46] fix: products of a consuming rule were looked up in a
 wrong directory after a dependency was built

---
 script.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/script.c b/script.c
index 3d5fb89..d486ccb 100644
--- a/script.c
+++ b/script.c
@@ -1058,6 +1058,7 @@ struct node* node_consumes_resolve(
       struct node *pn = node_by_product(n, cv, pathbuf);
       if (pn) {
         node_build(pn);
+        unit_ch_cache_dir(unit, 0); // CWD is set to the dir of current unit context after the build
       }
       if (path_is_exist(pathbuf)) {
         if (on_resolved) {
-- 
2.43.0


From 594a4bb282f6724f641947106e12ca8e6120bc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:30 +0000
Subject: [PATCH 39/46] fix: set: keep a plain value that begins with a dot as
 a plain value

---
 node_set.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node_set.c b/node_set.c
index 57c2a68..e1897fb 100644
--- a/node_set.c
+++ b/node_set.c
@@ -113,7 +113,7 @@ static const char* _set_value_get(struct node *n) {
     return n->impl;
   }
 
-  if (!nn->next && nn->value[0] != '.') { // Single value
+  if (!nn->next && (node_is_value(nn) || nn->value[0] != '.')) { // Single value
     const char *v = node_value(nn);
     n->impl = xstrdup(v ? v : "");
     n->recur_next.active = false;
@@ -126,7 +126,7 @@ static const char* _set_value_get(struct node *n) {
     if (!v) {
       v = "";
     }
-    if (nn->value[0] == '.' && nn->value[1] == '.') {
+    if (!node_is_value(nn) && nn->value[0] == '.' && nn->value[1] == '.') {
       utils_split_values_add(v, xstr);
     } else {
       if (!is_vlist(v)) {
-- 
2.43.0


From 49f5d76e8fc23828b1c64409721d05c6e33ce986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:06 +0000
Subject: [PATCH 40/46] fix: release the list of -D options also after a
 subcommand

---
 autark_core.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/autark_core.c b/autark_core.c
index 753298f..886a1f6 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -842,16 +842,16 @@ void autark_run(int argc, const char **argv) {
     ++optind;
     if (strcmp(arg, "set") == 0) {
       _on_command_set(argc, argv);
-      return;
+      goto finish;
     } else if (strcmp(arg, "dep") == 0) {
       _on_command_dep(argc, argv);
-      return;
+      goto finish;
     } else if (strcmp(arg, "env") == 0) {
       _on_command_dep_env(argc, argv);
-      return;
+      goto finish;
     } else if (strcmp(arg, "glob") == 0) {
       _on_command_glob(argc, argv, cdir);
-      return;
+      goto finish;
     } else { // Root dir expected
       g_env.project.root_dir = pool_strdup(g_env.pool, arg);
     }
@@ -865,5 +865,6 @@ void autark_run(int argc, const char **argv) {
     _build(&options);
   }
 
+finish:
   ulist_destroy_keep(&options);
 }
-- 
2.43.0


From 68a49f5cecdff6725e5aafb7c8b586695e1bfe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:37 +0000
Subject: [PATCH 41/46] fix: values exported by a check script are read whole,
 whatever their length

---
 script.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/script.c b/script.c
index d486ccb..bbfd172 100644
--- a/script.c
+++ b/script.c
@@ -1200,17 +1200,25 @@ void node_resolve(struct node_resolve *r) {
     char buf[4096];
     FILE *f = fopen(env_path, "r");
     if (f) {
+      struct xstr *line = xstr_create_empty(); // Values can be longer than a buffer
       while (fgets(buf, sizeof(buf), f)) {
-        char *p = strchr(buf, '=');
+        xstr_cat(line, buf);
+        if (!strchr(buf, '\n') && !feof(f)) {
+          continue;
+        }
+        char *key = xstr_ptr(line);
+        char *p = strchr(key, '=');
         if (p) {
           *p = '\0';
           char *val = p + 1;
           for (int vlen = strlen(val); vlen >= 0 && (val[vlen - 1] == '\n' || val[vlen - 1] == '\r'); --vlen) {
             val[vlen - 1] = '\0';
           }
-          r->on_env_value(r, buf, val);
+          r->on_env_value(r, key, val);
         }
+        xstr_clear(line);
       }
+      xstr_destroy(line);
       fclose(f);
     } else {
       akfatal(errno, "Failed to open env file: %s", env_path);
-- 
2.43.0


From 8f820cd49bf3d541cd3fa9f1a6e6384ef16db92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:33:24 +0000
Subject: [PATCH 42/46] fix: list values are written into string defines
 without their separators

---
 node_configure.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/node_configure.c b/node_configure.c
index 932cff4..bfd1e92 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -22,6 +22,16 @@ struct _configure_ctx {
   struct ulist sources;  // char*
 };
 
+static void _val_cat(struct xstr *xstr, const char *val) {
+  if (is_vlist(val)) {
+    size_t off = xstr_size(xstr);
+    xstr_cat(xstr, val + 1);
+    utils_chars_replace(xstr_ptr(xstr) + off, '\1', ' ');
+  } else {
+    xstr_cat(xstr, val);
+  }
+}
+
 static char* _line_replace_def(struct node *n, struct deps *deps, char *line) {
   char key[4096];
   const char *ep = line + AK_LLEN("//autarkdef ");
@@ -39,7 +49,9 @@ static char* _line_replace_def(struct node *n, struct deps *deps, char *line) {
     deps_add_env(deps, 0, key, val ? val : "");
     if (val) {
       struct xstr *xstr = xstr_create_empty();
-      xstr_printf(xstr, "#define %s \"%s\"\n", key, val);
+      xstr_printf(xstr, "#define %s \"", key);
+      _val_cat(xstr, val);
+      xstr_cat(xstr, "\"\n");
       return xstr_destroy_keep_ptr(xstr);
     }
   } else if (*np >= '0' && *np <= '9') {
@@ -92,16 +104,7 @@ static char* _line_replace_subs(struct node *n, struct deps *deps, char *line) {
         deps_add_env(deps, 0, key, val ? val : "");
 
         if (val && *val != '\0') {
-          if (is_vlist(val)) {
-            ++val;
-            size_t len = strlen(val);
-            char buf[len + 1];
-            memcpy(buf, val, len + 1);
-            utils_chars_replace(buf, '\1', ' ');
-            xstr_cat(xstr, buf);
-          } else {
-            xstr_cat(xstr, val);
-          }
+          _val_cat(xstr, val);
         }
         s = ++p;
         sp = strchr(s, '@');
-- 
2.43.0


From d0f1290bffaf7e47a41221a337823b19af523dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:33:24 +0000
Subject: [PATCH 43/46] fix: text before a single '@' at the end of a template
 is written once

---
 node_configure.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/node_configure.c b/node_configure.c
index bfd1e92..9719028 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -92,6 +92,7 @@ static char* _line_replace_subs(struct node *n, struct deps *deps, char *line) {
 
   do {
     xstr_cat2(xstr, s, sp - s);
+    s = sp; // Kept as is if there is no closing '@'
     xstr_clear(kstr);
     char *p = ++sp;
     sp = 0;
@@ -116,12 +117,7 @@ static char* _line_replace_subs(struct node *n, struct deps *deps, char *line) {
     }
   } while (sp);
 
-  if (xstr_size(kstr)) {
-    xstr_cat2(xstr, "@", 1);
-    xstr_cat(xstr, xstr_ptr(kstr));
-  } else {
-    xstr_cat(xstr, s);
-  }
+  xstr_cat(xstr, s);
   xstr_destroy(kstr);
 
   return xstr_destroy_keep_ptr(xstr);
-- 
2.43.0


From 8d6dd5cef3690cc40f6f316f8b6ad971dc336874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:33:24 +0000
Subject: [PATCH 44/46] fix: lines of a template longer than the buffer are
 configured as a whole

---
 node_configure.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/node_configure.c b/node_configure.c
index 9719028..b26ee84 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -143,11 +143,21 @@ static void _process_file(struct node *n, const char *src, const char *tgt, stru
     node_fatal(errno, n, "Failed to open file for writing: %s", tgt);
   }
 
-  char *line;
   char buf[16384];
+  struct xstr *lstr = xstr_create_empty(); // Lines can be longer than a buffer
+
+  for (bool more = true; more; ) {
+    more = fgets(buf, sizeof(buf), f) != 0;
+    if (more) {
+      xstr_cat(lstr, buf);
+      if (!strchr(buf, '\n')) {
+        continue;
+      }
+    } else if (!xstr_size(lstr)) {
+      break;
+    }
 
-  while ((line = fgets(buf, sizeof(buf), f))) {
-    char *rl;
+    char *rl, *line = xstr_ptr(lstr);
     if (utils_startswith(line, "//autarkdef ")) {
       rl = _line_replace_def(n, deps, line);
     } else {
@@ -159,7 +169,9 @@ static void _process_file(struct node *n, const char *src, const char *tgt, stru
     if (rl != line) {
       free(rl);
     }
+    xstr_clear(lstr);
   }
+  xstr_destroy(lstr);
 
   // Transfer file permissions
   struct stat st;
-- 
2.43.0


From 0cd26a99d6ad63a77c85e5bfdd6114b9e5bbc9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:33:24 +0000
Subject: [PATCH 45/46] fix: only the file name part has an extension

---
 node_basename.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/node_basename.c b/node_basename.c
index 1fa1ee5..1534abf 100644
--- a/node_basename.c
+++ b/node_basename.c
@@ -26,7 +26,8 @@ static const char* _basename_value(struct node *n) {
     replace_ext = node_value(n->child->next);
   }
   struct xstr *xstr = xstr_create_empty();
-  const char *dp = strrchr(val, '.');
+  const char *sp = strrchr(val, '/');
+  const char *dp = strrchr(sp ? sp : val, '.');
   if (dp) {
     xstr_cat2(xstr, val, (dp - val));
   } else {
-- 
2.43.0


From ea01a0ca291c225b6ae35a66b77b881ad59b3d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:33:24 +0000
Subject: [PATCH 46/46] fix: arguments of path helpers are joined into one path
 as documented

---
 node_dir.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/node_dir.c b/node_dir.c
index a39dcee..f362c63 100644
--- a/node_dir.c
+++ b/node_dir.c
@@ -8,6 +8,15 @@
 #include <unistd.h>
 #endif
 
+static void _dir_cat(struct xstr *xstr, const char *item, size_t len) {
+  if (xstr_size(xstr) && len) {
+    if (item[0] != '/' && !utils_endswith(xstr_ptr(xstr), "/")) {
+      xstr_cat2(xstr, "/", 1);
+    }
+  }
+  xstr_cat2(xstr, item, len);
+}
+
 static const char* _dir_value(struct node *n) {
   struct node_foreach *fe = node_find_parent_foreach(n);
   if (fe) {
@@ -44,15 +53,10 @@ static const char* _dir_value(struct node *n) {
       struct vlist_iter iter;
       vlist_iter_init(v, &iter);
       while (vlist_iter_next(&iter)) {
-        if (xstr_size(xstr) && iter.len) {
-          if (iter.item[0] != '/' && !utils_endswith(xstr_ptr(xstr), "/")) {
-            xstr_cat2(xstr, "/", 1);
-          }
-        }
-        xstr_cat2(xstr, iter.item, iter.len);
+        _dir_cat(xstr, iter.item, iter.len);
       }
-    } else {
-      xstr_cat(xstr, v);
+    } else if (v) {
+      _dir_cat(xstr, v, strlen(v));
     }
   }
   if (xstr_size(xstr) == 0) {
-- 
2.43.0

