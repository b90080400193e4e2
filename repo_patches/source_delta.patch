From 008f80a98014db8ae7b1df09318bf3a2ee00a5d2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:59 +0000
Subject: [PATCH 01/32] fix: read back exponent floats and digit-free symbols
 such as '-' unchanged

---
 gb/hypergraph/edge.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/gb/hypergraph/edge.py b/gb/hypergraph/edge.py
index 5edb25d..38ea016 100644
--- a/gb/hypergraph/edge.py
+++ b/gb/hypergraph/edge.py
@@ -19,9 +19,14 @@
 #   along with GraphBrain.  If not, see <http://www.gnu.org/licenses/>.
 
 
+import re
 import gb.hypergraph.symbol as sym
 
 
+# how Python writes very large and very small floating point numbers
+EXPONENT_FLOAT = re.compile(r'-?[0-9]+(\.[0-9]+)?e[+-][0-9]+\Z')
+
+
 class TokenType(object):
     def __init__(self):
         pass
@@ -50,9 +55,13 @@ def close_pars(s):
 def token_type(token):
     """Determine the type of a string token: STRING, INTEGER or DOUBLE."""
 
+    if EXPONENT_FLOAT.match(token):
+        return TokenType.DOUBLE
+
     s = token
     pos = 0
     point = False
+    digits = False
 
     while len(s) > 0:
         c = s[0]
@@ -66,10 +75,14 @@ def token_type(token):
                 point = True
         elif c < '0' or c > '9':
             return TokenType.STRING
+        else:
+            digits = True
         s = s[1:]
         pos += 1
 
-    if point:
+    if not digits:
+        return TokenType.STRING
+    elif point:
         return TokenType.DOUBLE
     else:
         return TokenType.INTEGER
-- 
2.43.0


From 9e0df0ddf3ab3f4f4771bd0263713dd667c43d52 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:59 +0000
Subject: [PATCH 02/32] fix: split edges that contain symbols with parenthesis,
 such as URLs

---
 gb/hypergraph/edge.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/gb/hypergraph/edge.py b/gb/hypergraph/edge.py
index 38ea016..00a12c5 100644
--- a/gb/hypergraph/edge.py
+++ b/gb/hypergraph/edge.py
@@ -37,19 +37,14 @@ class TokenType(object):
 
 
 def open_pars(s):
-    """Number of consecutive open parenthesis at the beginning of the string."""
-    pos = 0
-    while s[pos] == '(':
-        pos += 1
-    return pos
+    """Number of open parenthesis in the string."""
+    return s.count('(')
 
 
 def close_pars(s):
-    """Number of consecutive close parenthesis at the end of the string."""
-    pos = -1
-    while s[pos] == ')':
-        pos -= 1
-    return -pos - 1
+    """Number of close parenthesis in the string. All are counted, so that the
+    parenthesis inside a symbol (e.g. http://host/name_(kind)) balance out."""
+    return s.count(')')
 
 
 def token_type(token):
-- 
2.43.0


From b827f1af80ca5db3cb7efc4503aeb404a964ddeb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:31 +0000
Subject: [PATCH 03/32] fix: str2symbol must replace every kind of white space,
 which separates symbols in edges

---
 gb/hypergraph/symbol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gb/hypergraph/symbol.py b/gb/hypergraph/symbol.py
index 24df140..1be0c36 100644
--- a/gb/hypergraph/symbol.py
+++ b/gb/hypergraph/symbol.py
@@ -19,6 +19,7 @@
 #   along with GraphBrain.  If not, see <http://www.gnu.org/licenses/>.
 
 
+import re
 import string
 import random
 import numpy as np
@@ -110,7 +111,7 @@ def str2symbol(s):
     """Converts a string into a valid symbol"""
     sym = s.lower()
     sym = sym.replace("/", "_")
-    sym = sym.replace(" ", "_")
+    sym = re.sub(r'\s', '_', sym)
     sym = sym.replace("(", "_")
     sym = sym.replace(")", "_")
     return sym
-- 
2.43.0


From 80143816acb272b6b19f18e1d0e9575ef25a7d9f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:31 +0000
Subject: [PATCH 04/32] fix: an edge with 7 must not be taken for one with 7.0,
 nor a list for a different edge than its tuple

---
 gb/hypergraph/sql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 612f387..14d80a8 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -89,7 +89,8 @@ def edge_matches_pattern(edge, pattern):
     if n != len(pattern):
         return False
     for i in range(n):
-        if (pattern[i] is not None) and (pattern[i] != edge[i]):
+        # compare representations, 7 and 7.0 are different vertices
+        if (pattern[i] is not None) and (ed.edge2str(pattern[i]) != ed.edge2str(edge[i])):
             return False
     return True
 
-- 
2.43.0


From 09559ff13a648e1eb9db0d5786558f4c03947883 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:31 +0000
Subject: [PATCH 05/32] fix: pattern2edges with only wildcards must match all
 edges of that size, not raise

---
 gb/hypergraph/sql.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 14d80a8..616685b 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -194,10 +194,13 @@ class SQL(Backend):
         """Return all the edges that match a pattern.
         A pattern is a collection of entity ids and wildcards (None)."""
         nodes = [node for node in pattern if node is not None]
-        start_str = ed.nodes2str(nodes)
-        end_str = str_plus_1(start_str)
         cur = self.open_cursor()
-        cur.execute('SELECT id FROM perms WHERE id>=%s AND id<%s' % (self.ph, self.ph), (start_str, end_str))
+        if len(nodes) > 0:
+            start_str = '%s ' % ed.nodes2str(nodes)
+            end_str = str_plus_1(start_str)
+            cur.execute('SELECT id FROM perms WHERE id>=%s AND id<%s' % (self.ph, self.ph), (start_str, end_str))
+        else:
+            cur.execute('SELECT id FROM perms')
         edges = cur2edges(cur)
         self.close_cursor(cur, local=True, commit=False)
         return set([edge for edge in edges if edge_matches_pattern(edge, pattern)])
-- 
2.43.0


From 0b6228fed7e87fa08fd315d462937a46bc5b88e2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 06/32] fix: degree and timestamp must not close the cursor
 shared by a batch

---
 gb/hypergraph/sql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 616685b..3470401 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -302,7 +302,7 @@ class SQL(Backend):
         cur.execute('SELECT degree FROM vertices WHERE id=%s' % (self.ph,), (vert_str,))
         for row in cur:
             deg = row[0]
-            cur.close()
+            self.close_cursor(cur, local=True, commit=False)
             return deg
         self.close_cursor(cur, local=True, commit=False)
         return 0
@@ -314,7 +314,7 @@ class SQL(Backend):
         cur.execute('SELECT timestamp FROM vertices WHERE id=%s' % (self.ph,), (vert_str,))
         for row in cur:
             ts = row[0]
-            cur.close()
+            self.close_cursor(cur, local=True, commit=False)
             return ts
         self.close_cursor(cur, local=True, commit=False)
         return -1
-- 
2.43.0


From 85ecdc370bb1a41568f49af225d6c6fba7a9716a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 07/32] fix: keep the degree of an edge that is a vertex of
 other edges when it is added or removed

---
 gb/hypergraph/sql.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 3470401..8544155 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -225,6 +225,12 @@ class SQL(Backend):
         self.close_cursor(cur, local=True, commit=True)
         return res
 
+    def set_timestamp(self, vert_str, timestamp):
+        """Sets the timestamp of an existing vertex."""
+        cur = self.open_cursor()
+        cur.execute('UPDATE vertices SET timestamp=%s WHERE id=%s' % (self.ph, self.ph), (timestamp, vert_str))
+        self.close_cursor(cur, local=True, commit=True)
+
     def add_raw(self, edge, timestamp):
         """Auxiliary function for add to call from inside a transaction."""
         if not self.exists(edge):
@@ -232,7 +238,12 @@ class SQL(Backend):
                 vert_str = ed.edge2str(vert)
                 if not self.inc_degree(vert_str):
                     self.add_str(vert_str, 1, timestamp)
-            self.add_str(ed.edge2str(edge), 0, timestamp)
+            edge_str = ed.edge2str(edge)
+            if self.degree(edge) > 0:
+                # already a vertex, other edges contain it
+                self.set_timestamp(edge_str, timestamp)
+            else:
+                self.add_str(edge_str, 0, timestamp)
             self.write_edge_permutations(edge)
         return edge
 
@@ -254,7 +265,12 @@ class SQL(Backend):
             for vert in edge:
                 self.dec_degree(ed.edge2str(vert))
             self.remove_edge_permutations(edge)
-            self.remove_str(ed.edge2str(edge))
+            edge_str = ed.edge2str(edge)
+            if self.degree(edge) > 0:
+                # still a vertex, other edges contain it
+                self.set_timestamp(edge_str, -1)
+            else:
+                self.remove_str(edge_str)
 
     def remove(self, edges):
         """Removes one or multiple edges from the hypergraph
-- 
2.43.0


From f4a4f73ec1a14b87a1c0d256c55a269e060f9fd0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 08/32] fix: f_all inside a batch must survive queries made by
 f

---
 gb/hypergraph/sql.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 8544155..b8d5186 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -348,7 +348,9 @@ class SQL(Backend):
            A vertex map contains the keys vertex and degree."""
         cur = self.open_cursor()
         cur.execute('SELECT id, degree FROM vertices')
-        for row in cur:
+        # fetch before calling f, which may use the cursor: batches share it
+        rows = cur.fetchall()
+        self.close_cursor(cur, local=True, commit=False)
+        for row in rows:
             vmap = {'vertex': ed.str2edge(row[0]), 'degree': row[1]}
             yield f(vmap)
-        self.close_cursor(cur, local=True, commit=False)
-- 
2.43.0


From fea8deb319d6b1eb1b8304c7924c68e9361faf1d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 09/32] fix: commit each add, remove, destroy and batch as a
 whole, undo it as a whole if it fails

A crash or an error half way through left degrees that did not match the
edges, or an edge without part of its index. A function that failed inside
a batch also left the batch open, so nothing was committed any more, and
adding several edges inside a batch ended it early.
---
 gb/hypergraph/sql.py | 65 ++++++++++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 24 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index b8d5186..ba4a238 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -21,6 +21,7 @@
 
 import math
 import itertools
+from contextlib import contextmanager
 import gb.hypergraph.edge as ed
 from gb.hypergraph.backend import Backend
 
@@ -131,6 +132,24 @@ class SQL(Backend):
             self.cur.close()
             self.cur = None
 
+    @contextmanager
+    def transaction(self):
+        """Everything done inside is committed as a whole at the end,
+        or undone as a whole in case of error."""
+        if self.cur is not None:
+            # nested, part of the outer transaction
+            yield
+            return
+        cur = self.open_cursor(local=False)
+        try:
+            yield
+            self.conn.commit()
+        except BaseException:
+            self.conn.rollback()
+            raise
+        finally:
+            self.close_cursor(cur, local=False)
+
     def update_or_insert(self, table, row, vid):
         """Updates columns or inserts a new row in the vertices table"""
         cur = self.open_cursor()
@@ -163,10 +182,9 @@ class SQL(Backend):
 
     def remove_edge_permutation(self, perm):
         eid = ed.edge2str(perm)
-        cur = self.conn.cursor()
+        cur = self.open_cursor()
         cur.execute('DELETE FROM perms WHERE id=%s' % (self.ph,), (eid,))
-        self.conn.commit()
-        cur.close()
+        self.close_cursor(cur, local=True, commit=True)
 
     def remove_edge_permutations(self, edge):
         """Removes all permutations of the given edge."""
@@ -250,13 +268,12 @@ class SQL(Backend):
     def add(self, edges, timestamp=-1):
         """Adds one or multiple edges to the hypergraph if it does not exist yet.
         Adding multiple edges at the same time might be faster."""
-        if isinstance(edges[0], (list, tuple)):
-            cur = self.open_cursor(local=False)
-            for edge in edges:
-                self.add_raw(edge, timestamp)
-            self.close_cursor(cur, local=False, commit=True)
-        else:
-            self.add_raw(edges, timestamp)
+        with self.transaction():
+            if isinstance(edges[0], (list, tuple)):
+                for edge in edges:
+                    self.add_raw(edge, timestamp)
+            else:
+                self.add_raw(edges, timestamp)
         return edges
 
     def remove_raw(self, edge):
@@ -275,12 +292,12 @@ class SQL(Backend):
     def remove(self, edges):
         """Removes one or multiple edges from the hypergraph
         Removing multiple edges at the same time might be faster."""
-        if isinstance(edges[0], (list, tuple)):
-            # TODO: use transaction?
-            for edge in edges:
-                self.remove_raw(edge)
-        else:
-            self.remove_raw(edges)
+        with self.transaction():
+            if isinstance(edges[0], (list, tuple)):
+                for edge in edges:
+                    self.remove_raw(edge)
+            else:
+                self.remove_raw(edges)
 
     def star(self, center):
         """Return all the edges that contain a given entity.
@@ -306,10 +323,11 @@ class SQL(Backend):
 
     def destroy(self):
         """Erase the hypergraph."""
-        cur = self.open_cursor()
-        cur.execute('DELETE FROM vertices')
-        cur.execute('DELETE FROM perms')
-        self.close_cursor(cur, local=True, commit=True)
+        with self.transaction():
+            cur = self.open_cursor()
+            cur.execute('DELETE FROM vertices')
+            cur.execute('DELETE FROM perms')
+            self.close_cursor(cur, local=True, commit=True)
 
     def degree(self, vertex):
         """Returns the degree of a vertex."""
@@ -337,10 +355,9 @@ class SQL(Backend):
 
     def batch_exec(self, funs):
         """Auxiliary function to implement ops.batch_exec in SQL environments."""
-        cur = self.open_cursor(local=False)
-        for f in funs:
-            f(self)
-        self.close_cursor(cur, local=False, commit=True)
+        with self.transaction():
+            for f in funs:
+                f(self)
 
     def f_all(self, f):
         """Returns a lazy sequence resulting from applying f to every
-- 
2.43.0


From 533b0861641a46d6b1ceadad0d4641c845ee86f1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 10/32] fix: take the SQLite write lock before checking if an
 edge exists

---
 gb/hypergraph/sql.py    | 5 +++++
 gb/hypergraph/sqlite.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index ba4a238..883db60 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -132,6 +132,10 @@ class SQL(Backend):
             self.cur.close()
             self.cur = None
 
+    def begin(self):
+        """Starts a database transaction, by default the driver does it when needed."""
+        pass
+
     @contextmanager
     def transaction(self):
         """Everything done inside is committed as a whole at the end,
@@ -142,6 +146,7 @@ class SQL(Backend):
             return
         cur = self.open_cursor(local=False)
         try:
+            self.begin()
             yield
             self.conn.commit()
         except BaseException:
diff --git a/gb/hypergraph/sqlite.py b/gb/hypergraph/sqlite.py
index fd65ee1..d2d93e7 100644
--- a/gb/hypergraph/sqlite.py
+++ b/gb/hypergraph/sqlite.py
@@ -37,6 +37,11 @@ class SQLite(SQL):
         file_path = params['db']
         SQL.__init__(self, sqlite3.connect(file_path))
 
+    def begin(self):
+        """Takes the write lock before anything is read, otherwise two processes
+        could both find that an edge is missing, and both add it."""
+        self.conn.execute('BEGIN IMMEDIATE')
+
     def create_tables(self):
         """Created the tables necessary to store the hypergraph."""
         cur = self.conn.cursor()
-- 
2.43.0


From 9391d9df507629460c7cfe3e89a1ece5a73ca759 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 11/32] fix: remove_by_pattern and remove_belief must remove
 edges that start with an edge

---
 gb/hypergraph/hypergraph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/hypergraph.py b/gb/hypergraph/hypergraph.py
index 92588c6..143bf11 100644
--- a/gb/hypergraph/hypergraph.py
+++ b/gb/hypergraph/hypergraph.py
@@ -98,7 +98,8 @@ class HyperGraph(object):
         """Removes from the hypergraph all edges that match the pattern."""
         edges = self.pattern2edges(pattern)
         for edge in edges:
-            self.remove(edge)
+            # in a collection: the first element of the edge may be an edge too
+            self.remove([edge])
 
     # TODO: this can be optimized
     def ego(self, center, depth):
@@ -138,4 +139,4 @@ class HyperGraph(object):
            removed."""
         self.remove((const.source, edge, source))
         if len(self.sources(edge)) == 0:
-            self.remove(edge)
+            self.remove([edge])
-- 
2.43.0


From 57533156f18419f7a53a5ea022290f3331e63796 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 12/32] fix: remove a belief and the fact that it leaves
 without sources as a whole

---
 gb/hypergraph/hypergraph.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gb/hypergraph/hypergraph.py b/gb/hypergraph/hypergraph.py
index 143bf11..b829d29 100644
--- a/gb/hypergraph/hypergraph.py
+++ b/gb/hypergraph/hypergraph.py
@@ -137,6 +137,10 @@ class HyperGraph(object):
         """A belif is a fact with a source. The link from the source to the fact
            is removed. If no more sources support the fact, then the fact is also
            removed."""
-        self.remove((const.source, edge, source))
-        if len(self.sources(edge)) == 0:
-            self.remove([edge])
+        def remove_link_and_orphan(_):
+            self.remove((const.source, edge, source))
+            if len(self.sources(edge)) == 0:
+                self.remove([edge])
+
+        # as a batch, so that a crash can not leave a fact without sources
+        self.batch_exec([remove_link_and_orphan])
-- 
2.43.0


From 49c4613dee57fe4a23a05652261065620d6b27d4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 13/32] fix: ego and intersect raised on every input

ego indexed a set, and returned vertices where its callers need edges;
intersect looked up the builtin id, collected unhashable lists and treated
relations as participants.
---
 gb/hypergraph/hypergraph.py | 13 ++++++++-----
 gb/hypergraph/queries.py    |  8 ++++----
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/gb/hypergraph/hypergraph.py b/gb/hypergraph/hypergraph.py
index b829d29..947a2f6 100644
--- a/gb/hypergraph/hypergraph.py
+++ b/gb/hypergraph/hypergraph.py
@@ -103,13 +103,16 @@ class HyperGraph(object):
 
     # TODO: this can be optimized
     def ego(self, center, depth):
+        """Return all the edges that can be reached from a given entity in at most depth
+        steps. A step goes from an entity to the edges that contain it, and to the
+        participants (all elements but the first) of these edges."""
+        edges = set()
         if depth > 0:
             edges = self.star(center)
-            edges = edges[1:]
-            ids = [item for sublist in edges for item in sublist]
-            ids = set(ids)
-            next_edges = [self.ego(vid, depth - 1) for vid in ids]
-            return ids.union(next_edges)
+            ids = set([item for edge in edges for item in edge[1:]])
+            for vid in ids:
+                edges = edges.union(self.ego(vid, depth - 1))
+        return edges
 
     def add_belief(self, source, edges, timestamp=-1):
         """A belif is a fact with a source. The fact is created as a normal edge
diff --git a/gb/hypergraph/queries.py b/gb/hypergraph/queries.py
index de75daf..28d5127 100644
--- a/gb/hypergraph/queries.py
+++ b/gb/hypergraph/queries.py
@@ -38,12 +38,12 @@ def vemap_assoc_id_edge(vemap, vid, edge):
     if vid not in vemap:
         vemap[vid] = {'edges': [], 'neighbours': set()}
     vemap[vid]['edges'].append(edge)
-    vemap[vid]['neighbours'] = add_neighbours(vemap[id]['neighbours'], edge)
+    vemap[vid]['neighbours'] = add_neighbours(vemap[vid]['neighbours'], edge)
     return vemap
 
 
 def vemap_plus_edge(vemap, edge):
-    for vid in edge:
+    for vid in edge[1:]:
         vemap_assoc_id_edge(vemap, vid, edge)
     return vemap
 
@@ -74,9 +74,9 @@ def walks(vemap, nodes, walk, all_walks):
             valid = False
 
     if valid:
-        all_walks.add(walk)
+        all_walks.add(tuple(walk))
     else:
-        neighbours = vemap[walk[-1]]['neighbours']
+        neighbours = vemap[walk[-1]]['neighbours'] if walk[-1] in vemap else set()
         next_steps = [node for node in neighbours if node not in walk]
         if len(next_steps) > 0:
             for step in next_steps:
-- 
2.43.0


From c3598c99943f970077e98e88781cb748f49968cb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:29 +0000
Subject: [PATCH 14/32] fix: operations on a batch hypergraph must see its
 buffered edges, with their timestamps

Flushing an empty buffer raised, edges flushed later lost the timestamp they
were added with, and an edge removed while it was still in the buffer was
added back by the next flush.
---
 gb/hypergraph/batch_hypergraph.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/gb/hypergraph/batch_hypergraph.py b/gb/hypergraph/batch_hypergraph.py
index dd8b305..e5bf8d4 100644
--- a/gb/hypergraph/batch_hypergraph.py
+++ b/gb/hypergraph/batch_hypergraph.py
@@ -28,23 +28,38 @@ class BatchHyperGraph(hypergraph.HyperGraph):
     def __init__(self, hg, buffer_max=1000):
         hypergraph.HyperGraph.__init__(self, {'backend': 'none'})
         self.hg = hg
-        self.backend = hg.backend
         self.buffer = []
+        self.buffer_timestamp = -1
         self.buffer_max = buffer_max
 
-    def flush(self, timestamp=-1):
-        self.backend.add(self.buffer, timestamp)
-        self.buffer = []
+    @property
+    def backend(self):
+        """All the other operations must find the edges that were added before them."""
+        self.flush()
+        return self.hg.backend
+
+    def flush(self, timestamp=None):
+        """Writes the edges in the buffer, with the timestamp they were added with
+        unless another one is given."""
+        if len(self.buffer) > 0:
+            if timestamp is None:
+                timestamp = self.buffer_timestamp
+            self.hg.backend.add(self.buffer, timestamp)
+            self.buffer = []
 
     def add(self, edges, timestamp=-1):
         """Adds one or multiple edges to the hypergraph if it does not exist yet.
                 Adding multiple edges at the same time might be faster."""
+        if timestamp != self.buffer_timestamp:
+            self.flush()
+            self.buffer_timestamp = timestamp
+
         if isinstance(edges[0], (list, tuple)):
             self.buffer += edges
         else:
             self.buffer.append(edges)
 
         if len(self.buffer) > self.buffer_max:
-            self.flush(timestamp)
+            self.flush()
 
         return edges
-- 
2.43.0


From 0563b8002539a2c6497f5550b8c63adcb94efe8b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 15/32] fix: read back edges that start with an edge

---
 gb/hypergraph/sql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 883db60..6446782 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -68,11 +68,11 @@ def cur2edges(cur):
     edges = []
     for row in cur:
         res = row[0]
-        tokens = ed.split_edge_str(res)
+        tokens = ed.split_edge_str('(%s)' % res)
         nper = int(tokens[-1])
         tokens = tokens[:-1]
         tokens = unpermutate(tokens, nper)
-        edge = ed.str2edge(' '.join(tokens))
+        edge = ed.str2edge('(%s)' % ' '.join(tokens))
         edges.append(edge)
     return set(edges)
 
-- 
2.43.0


From 7a0a928e282eff5e04e9624e8e6207eb746b8984 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 16/32] fix: pass the parameters that the MySQL backend reads

---
 gb/gbrain.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gb/gbrain.py b/gb/gbrain.py
index 9a9771f..9727c5a 100644
--- a/gb/gbrain.py
+++ b/gb/gbrain.py
@@ -29,15 +29,17 @@ from gb.tools.shell import Shell
 @click.group()
 @click.option('--backend', help='Hypergraph Backend (sqlite, mysql, null).', default='sqlite')
 @click.option('--db', help='Database name.', default='gb.db')
+@click.option('--dbhost', help='Database host.', default='localhost')
 @click.option('--dbuser', help='Database user.', default='gb')
 @click.option('--dbpass', help='Database password.', default='gb')
 @click.pass_context
-def cli(ctx, backend, db, dbuser, dbpass):
+def cli(ctx, backend, db, dbhost, dbuser, dbpass):
     ctx.obj = {
         'backend': backend,
         'db': db,
-        'dbuser': dbuser,
-        'dbpass': dbpass
+        'host': dbhost,
+        'user': dbuser,
+        'password': dbpass
     }
 
 
-- 
2.43.0


From 3c9fc4d87161bd49dc27202748ad87434eb87977 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 17/32] fix: the parent of a token is its head, not the parser

---
 gb/nlp/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gb/nlp/parser.py b/gb/nlp/parser.py
index b506333..cce30e9 100644
--- a/gb/nlp/parser.py
+++ b/gb/nlp/parser.py
@@ -45,9 +45,9 @@ class Parser:
             token.left_children = [self.__spacy2token(t) for t in stoken.lefts]
             token.right_children = [self.__spacy2token(t) for t in stoken.rights]
             for t in token.left_children:
-                t.parent = self
+                t.parent = token
             for t in token.right_children:
-                t.parent = self
+                t.parent = token
             token.entity_type = stoken.ent_type_
             self.token_table[stoken] = token
 
-- 
2.43.0


From bc7f4822ba4c5338bc0ce51be4d0fd05ec3a7501 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:16 +0000
Subject: [PATCH 18/32] fix: update_or_insert raised on MySQL when the row was
 there with the same values

---
 gb/hypergraph/sql.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 6446782..97e6c67 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -159,12 +159,16 @@ class SQL(Backend):
         """Updates columns or inserts a new row in the vertices table"""
         cur = self.open_cursor()
 
-        row_str = ','.join(['%s=%s' % (k, self.ph) for k in row.keys()])
+        # the row count of the update can not tell, MySQL does not count unchanged rows
+        cur.execute('SELECT id FROM %s WHERE id=%s' % (table, self.ph), (vid,))
+        exists = cur.fetchone() is not None
+
         values = [v for v in row.values()]
-        values.append(vid)
-        cur.execute('UPDATE %s SET %s WHERE id=%s' % (table, row_str, self.ph), values)
-        if cur.rowcount == 0:
-            values = values[:-1]
+        if exists:
+            row_str = ','.join(['%s=%s' % (k, self.ph) for k in row.keys()])
+            values.append(vid)
+            cur.execute('UPDATE %s SET %s WHERE id=%s' % (table, row_str, self.ph), values)
+        else:
             key_str = ','.join([k for k in row.keys()])
             placeholder_str = ','.join([self.ph] * len(row.keys()))
             cur.execute('INSERT INTO %s (%s) values (%s)' % (table, key_str, placeholder_str), values)
-- 
2.43.0


From 1d271f7972aabe3597c0fc81a3a0f877ffd26173 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:16 +0000
Subject: [PATCH 19/32] fix: batches on MySQL must be transactions, autocommit
 splits them

---
 gb/hypergraph/mysql.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gb/hypergraph/mysql.py b/gb/hypergraph/mysql.py
index a670737..8c27e9b 100644
--- a/gb/hypergraph/mysql.py
+++ b/gb/hypergraph/mysql.py
@@ -42,6 +42,10 @@ class MySQL(SQL):
         conn.autocommit(True)
         SQL.__init__(self, conn, '%s')
 
+    def begin(self):
+        """Explicitly, as the connection is in autocommit mode."""
+        self.conn.begin()
+
     def create_tables(self):
         """Created the tables necessary to store the hypergraph."""
         cur = self.conn.cursor()
-- 
2.43.0


From ba9d0e3d84e56c233964abcb77b089ad37264602 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 20/32] fix: remove_by_pattern must also remove the edges that
 differ in 7 versus 7.0 from others

---
 gb/hypergraph/hypergraph.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gb/hypergraph/hypergraph.py b/gb/hypergraph/hypergraph.py
index 947a2f6..537f04a 100644
--- a/gb/hypergraph/hypergraph.py
+++ b/gb/hypergraph/hypergraph.py
@@ -97,9 +97,12 @@ class HyperGraph(object):
     def remove_by_pattern(self, pattern):
         """Removes from the hypergraph all edges that match the pattern."""
         edges = self.pattern2edges(pattern)
-        for edge in edges:
-            # in a collection: the first element of the edge may be an edge too
-            self.remove([edge])
+        # again until none is left: edges that only differ in 7 versus 7.0 are one in a set
+        while len(edges) > 0:
+            for edge in edges:
+                # in a collection: the first element of the edge may be an edge too
+                self.remove([edge])
+            edges = self.pattern2edges(pattern)
 
     # TODO: this can be optimized
     def ego(self, center, depth):
-- 
2.43.0


From 16682c2ef6f392064d099375876e958067c4c7fb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:15 +0000
Subject: [PATCH 21/32] fix: readings of a tree in the delta stage must not
 change each other nor the tree

---
 gb/knowledge/stages/delta.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gb/knowledge/stages/delta.py b/gb/knowledge/stages/delta.py
index 1b31252..10e2a80 100644
--- a/gb/knowledge/stages/delta.py
+++ b/gb/knowledge/stages/delta.py
@@ -154,7 +154,9 @@ class DeltaStage(object):
                             rel_right_a = rel_right.children_ids[0]
                             rel_right_b = rel_right.children_ids[1:]
 
-                        center_rel_node = self.tree.create_node([rel_left_b, rel_right_a])
+                        # clones, other candidates and the original tree share these nodes
+                        center_rel_node = self.tree.create_node([self.tree.clone_id(rel_left_b),
+                                                                 self.tree.clone_id(rel_right_a)])
                         center_rel_node.compound = True
 
                         rel_ids = rel_left_a + [center_rel_node.id] + rel_right_b
@@ -181,7 +183,10 @@ class DeltaStage(object):
                 new_node.children_ids.append(child_id)
                 self.find_candidates_r(original_node, new_node, to_process[1:], candidates)
         else:
-            working_node.get_child(0).flatten()
+            # flatten a clone, other candidates and the original tree share the relation
+            rel = working_node.get_child(0).clone()
+            rel.flatten()
+            working_node.children_ids[0] = rel.id
             candidates.append(working_node)
 
         return candidates
-- 
2.43.0


From 3d8cce56646c3e40860b2bf9d87699a88f98561d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:34 +0000
Subject: [PATCH 22/32] fix: the dump filter must not change the ends of the
 lines

---
 python/filter_wikidump.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/filter_wikidump.py b/python/filter_wikidump.py
index e5de021..ce8144e 100755
--- a/python/filter_wikidump.py
+++ b/python/filter_wikidump.py
@@ -49,7 +49,8 @@ def main(argv):
     state = 'page_search'
     buffer = ''
     
-    with open(argv[0]) as infile:
+    # newline='': the ends of the lines are output as they are
+    with open(argv[0], newline='') as infile:
         for line in infile:
             if state == 'page_search':
                 m = page.search(line)
-- 
2.43.0


From b7c93db2d644eae9b590e75bc48902d840b81538 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:26 +0000
Subject: [PATCH 23/32] fix: the root of the symbol of a WordNet lemma like
 TCP/IP is the whole lemma

---
 gb/readers/wordnet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gb/readers/wordnet.py b/gb/readers/wordnet.py
index 4ade3cc..23fd140 100644
--- a/gb/readers/wordnet.py
+++ b/gb/readers/wordnet.py
@@ -26,7 +26,8 @@ import gb.hypergraph.batch_hypergraph as batchhg
 
 def lemma2symbol(lemma):
     lemma_id = 'wn.%s' % lemma.synset().name()
-    return sym.build([lemma.name(), lemma_id])
+    # the slash of names like TCP/IP would separate the root from the rest
+    return sym.build([lemma.name().replace('/', '_'), lemma_id])
 
 
 def pos2symbol(pos):
-- 
2.43.0


From f5a1dec78c941842b4823d83b6ea674c0dccb82e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 24/32] fix: an operation that fails inside a batch must be
 undone also when the batch goes on

---
 gb/hypergraph/sql.py | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 97e6c67..6a61f41 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -105,6 +105,8 @@ class SQL(Backend):
         self.create_tables()
         self.cur = None
         self.ph = ph
+        self.savepoints = 0
+        self.undone = False
 
     def create_tables(self):
         raise NotImplementedError()
@@ -136,18 +138,46 @@ class SQL(Backend):
         """Starts a database transaction, by default the driver does it when needed."""
         pass
 
+    def check_undone(self):
+        if self.undone:
+            raise RuntimeError('The transaction was undone by the database')
+
+    @contextmanager
+    def savepoint(self):
+        """Undoes what was done inside in case of error, but not the rest of
+        the transaction."""
+        self.check_undone()
+        name = 'savepoint%s' % self.savepoints
+        self.cur.execute('SAVEPOINT %s' % name)
+        self.savepoints += 1
+        try:
+            yield
+        except BaseException:
+            try:
+                self.cur.execute('ROLLBACK TO SAVEPOINT %s' % name)
+            except Exception:
+                # there is no transaction any more, some errors undo it
+                self.undone = True
+            raise
+        finally:
+            self.savepoints -= 1
+        self.cur.execute('RELEASE SAVEPOINT %s' % name)
+
     @contextmanager
     def transaction(self):
         """Everything done inside is committed as a whole at the end,
         or undone as a whole in case of error."""
         if self.cur is not None:
             # nested, part of the outer transaction
-            yield
+            with self.savepoint():
+                yield
             return
         cur = self.open_cursor(local=False)
+        self.undone = False
         try:
             self.begin()
             yield
+            self.check_undone()
             self.conn.commit()
         except BaseException:
             self.conn.rollback()
-- 
2.43.0


From dd771fc6456acc3cb3b5371f2884ecfed1aa3812 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 25/32] fix: a batch must not go on after the database undid
 its transaction

---
 gb/hypergraph/sql.py    | 16 ++++++++++------
 gb/hypergraph/sqlite.py |  3 +++
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 6a61f41..ee27db4 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -138,30 +138,34 @@ class SQL(Backend):
         """Starts a database transaction, by default the driver does it when needed."""
         pass
 
-    def check_undone(self):
-        if self.undone:
+    def in_transaction(self):
+        """Some errors make the database undo the transaction on its own."""
+        return not self.undone
+
+    def check_transaction(self):
+        if not self.in_transaction():
             raise RuntimeError('The transaction was undone by the database')
 
     @contextmanager
     def savepoint(self):
         """Undoes what was done inside in case of error, but not the rest of
         the transaction."""
-        self.check_undone()
+        self.check_transaction()
         name = 'savepoint%s' % self.savepoints
         self.cur.execute('SAVEPOINT %s' % name)
         self.savepoints += 1
         try:
             yield
+            self.cur.execute('RELEASE SAVEPOINT %s' % name)
         except BaseException:
             try:
                 self.cur.execute('ROLLBACK TO SAVEPOINT %s' % name)
             except Exception:
-                # there is no transaction any more, some errors undo it
+                # there is no transaction any more
                 self.undone = True
             raise
         finally:
             self.savepoints -= 1
-        self.cur.execute('RELEASE SAVEPOINT %s' % name)
 
     @contextmanager
     def transaction(self):
@@ -177,7 +181,7 @@ class SQL(Backend):
         try:
             self.begin()
             yield
-            self.check_undone()
+            self.check_transaction()
             self.conn.commit()
         except BaseException:
             self.conn.rollback()
diff --git a/gb/hypergraph/sqlite.py b/gb/hypergraph/sqlite.py
index d2d93e7..3204b0c 100644
--- a/gb/hypergraph/sqlite.py
+++ b/gb/hypergraph/sqlite.py
@@ -42,6 +42,9 @@ class SQLite(SQL):
         could both find that an edge is missing, and both add it."""
         self.conn.execute('BEGIN IMMEDIATE')
 
+    def in_transaction(self):
+        return self.conn.in_transaction and SQL.in_transaction(self)
+
     def create_tables(self):
         """Created the tables necessary to store the hypergraph."""
         cur = self.conn.cursor()
-- 
2.43.0


From 44d9229bb56222b5e772d534be5f37476b541b08 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 26/32] fix: pattern queries lose no edge to one that only
 differs in 7 versus 7.0

The edges read for a pattern were collected in a set before they were
compared with it, where edges that Python calls equal are one: an edge
that matches could be dropped in favour of one that does not.
---
 gb/hypergraph/sql.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index ee27db4..0257330 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -64,7 +64,8 @@ def unpermutate(tokens, nper):
 
 
 def cur2edges(cur):
-    """Transforms a cursor from a database query into a set of edges."""
+    """Transforms a cursor from a database query into a list of edges.
+    Not a set: edges that only differ in 7 versus 7.0 would be one in it."""
     edges = []
     for row in cur:
         res = row[0]
@@ -74,7 +75,7 @@ def cur2edges(cur):
         tokens = unpermutate(tokens, nper)
         edge = ed.str2edge('(%s)' % ' '.join(tokens))
         edges.append(edge)
-    return set(edges)
+    return edges
 
 
 def str_plus_1(s):
-- 
2.43.0


From 1538079d7dffbabbdb9f27b65606d4039668530f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:07 +0000
Subject: [PATCH 27/32] fix: the printed tree of a sentence must show tokens
 with equal labels too

Children were kept in a dictionary by their labels, two prepositions 'in' of
a verb became one (and the words below the first were lost). Printing the
tree of a sentence without a root raised.
---
 gb/nlp/sentence.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/gb/nlp/sentence.py b/gb/nlp/sentence.py
index 0c4a1ee..07661aa 100644
--- a/gb/nlp/sentence.py
+++ b/gb/nlp/sentence.py
@@ -20,7 +20,7 @@
 
 
 from asciitree import LeftAligned
-from collections import OrderedDict
+from asciitree.traversal import Traversal
 
 
 def node_label(token, prefix):
@@ -31,7 +31,8 @@ def token2label_tree(token, prefix='*'):
     children = [token2label_tree(leaf, 'L') for leaf in token.left_children] +\
                [token2label_tree(leaf, 'R') for leaf in token.right_children]
 
-    return node_label(token, prefix), OrderedDict(children)
+    # a list, two children may have the same label
+    return node_label(token, prefix), children
 
 
 class Sentence:
@@ -47,13 +48,15 @@ class Sentence:
     def label_tree(self):
         r = self.root()
         if r is None:
-            return {}
-        label, children = token2label_tree(r)
-        return {label: children}
+            return None
+        return token2label_tree(r)
 
     def print_tree(self):
-        tr = LeftAligned()
-        print(tr(self.label_tree()))
+        tree = self.label_tree()
+        if tree is None:
+            return
+        tr = LeftAligned(traverse=Traversal(get_text=lambda node: node[0], get_children=lambda node: node[1]))
+        print(tr(tree))
 
     def __str__(self):
         return ' '.join([token.word.strip() for token in self.tokens])
-- 
2.43.0


From bfc7b5f888afa1aaed6099972a7050cb4c4749e5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:48 +0000
Subject: [PATCH 28/32] fix: buffered edges must not change when the caller
 changes its lists

---
 gb/hypergraph/batch_hypergraph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gb/hypergraph/batch_hypergraph.py b/gb/hypergraph/batch_hypergraph.py
index e5bf8d4..46c0027 100644
--- a/gb/hypergraph/batch_hypergraph.py
+++ b/gb/hypergraph/batch_hypergraph.py
@@ -19,6 +19,7 @@
 #   along with GraphBrain.  If not, see <http://www.gnu.org/licenses/>.
 
 
+import copy
 import gb.hypergraph.hypergraph as hypergraph
 
 
@@ -50,6 +51,9 @@ class BatchHyperGraph(hypergraph.HyperGraph):
     def add(self, edges, timestamp=-1):
         """Adds one or multiple edges to the hypergraph if it does not exist yet.
                 Adding multiple edges at the same time might be faster."""
+        # a copy, the caller may change its lists before they are written
+        given, edges = edges, copy.deepcopy(edges)
+
         if timestamp != self.buffer_timestamp:
             self.flush()
             self.buffer_timestamp = timestamp
@@ -62,4 +66,4 @@ class BatchHyperGraph(hypergraph.HyperGraph):
         if len(self.buffer) > self.buffer_max:
             self.flush()
 
-        return edges
+        return given
-- 
2.43.0


From f4f34e02c21e2eafd93af322b5764165f772d258 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:48 +0000
Subject: [PATCH 29/32] fix: the neighbourhood of an entity took 7 and 7.0 for
 one vertex

---
 gb/hypergraph/hypergraph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/hypergraph.py b/gb/hypergraph/hypergraph.py
index 537f04a..c40a2d9 100644
--- a/gb/hypergraph/hypergraph.py
+++ b/gb/hypergraph/hypergraph.py
@@ -23,6 +23,7 @@ from gb.hypergraph.null import Null
 from gb.hypergraph.sqlite import SQLite
 from gb.hypergraph.mysql import MySQL
 import gb.hypergraph.constants as const
+import gb.hypergraph.edge as ed
 
 
 class HyperGraph(object):
@@ -112,8 +113,9 @@ class HyperGraph(object):
         edges = set()
         if depth > 0:
             edges = self.star(center)
-            ids = set([item for edge in edges for item in edge[1:]])
-            for vid in ids:
+            # by representation, 7 and 7.0 are different vertices
+            ids = {ed.edge2str(item): item for edge in edges for item in edge[1:]}
+            for vid in ids.values():
                 edges = edges.union(self.ego(vid, depth - 1))
         return edges
 
-- 
2.43.0


From ee29e53e922a7fc5310d072e2958311c5f3e764a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:48 +0000
Subject: [PATCH 30/32] fix: intersecting entities took 7 and 7.0 for one
 vertex

---
 gb/hypergraph/queries.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gb/hypergraph/queries.py b/gb/hypergraph/queries.py
index 28d5127..3737510 100644
--- a/gb/hypergraph/queries.py
+++ b/gb/hypergraph/queries.py
@@ -19,6 +19,9 @@
 #   along with GraphBrain.  If not, see <http://www.gnu.org/licenses/>.
 
 
+import gb.hypergraph.edge as ed
+
+
 def exclude_edge(hg, edge):
     for vertex in edge[1:]:
         if hg.degree(vertex) > 250:
@@ -31,7 +34,7 @@ def include_edge(hg, edge):
 
 
 def add_neighbours(neighbours, edge):
-    return set(neighbours).union(set(edge[1:]))
+    return set(neighbours).union(set(ed.edge2str(vertex) for vertex in edge[1:]))
 
 
 def vemap_assoc_id_edge(vemap, vid, edge):
@@ -43,7 +46,8 @@ def vemap_assoc_id_edge(vemap, vid, edge):
 
 
 def vemap_plus_edge(vemap, edge):
-    for vid in edge[1:]:
+    # vertices by representation, 7 and 7.0 are different ones
+    for vid in [ed.edge2str(vertex) for vertex in edge[1:]]:
         vemap_assoc_id_edge(vemap, vid, edge)
     return vemap
 
@@ -62,7 +66,7 @@ def node2edges(hg, node):
 
 def interedge(edge, interverts):
     for vertex in edge[1:]:
-        if vertex not in interverts:
+        if ed.edge2str(vertex) not in interverts:
             return False
     return True
 
@@ -127,6 +131,7 @@ def intersect(hg, seeds):
     vemap = {}
     for edges in edgesets:
         edges2vemap(vemap, edges)
+    seeds = [ed.edge2str(seed) for seed in seeds]
     wlks = set()
     walks(vemap, seeds, [seeds[0]], wlks)
     wmap = walks2wmap(wlks)
-- 
2.43.0


From 00fc40c7bc32f981406b01df594bc79cabf8141a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:48 +0000
Subject: [PATCH 31/32] fix: looking up the root http: returned URLs

---
 gb/hypergraph/sql.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 0257330..8b9aa12 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -23,6 +23,7 @@ import math
 import itertools
 from contextlib import contextmanager
 import gb.hypergraph.edge as ed
+import gb.hypergraph.symbol as sym
 from gb.hypergraph.backend import Backend
 
 
@@ -361,7 +362,9 @@ class SQL(Backend):
         for row in cur:
             res = row[0]
             symb = ed.split_edge_str(res)[0]
-            symbs.append(symb)
+            # http: is not the root of http://host/path
+            if sym.sym_type(symb) == sym.SymbolType.CONCEPT:
+                symbs.append(symb)
         self.close_cursor(cur, local=True, commit=False)
         return set(symbs)
 
-- 
2.43.0


From e02a004987a7d421a6bd931e9773e340ad953bb5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:14 +0000
Subject: [PATCH 32/32] fix: the negative of the symbol ~ could not be negated
 back

---
 gb/hypergraph/symbol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gb/hypergraph/symbol.py b/gb/hypergraph/symbol.py
index 1be0c36..5443bdb 100644
--- a/gb/hypergraph/symbol.py
+++ b/gb/hypergraph/symbol.py
@@ -139,7 +139,7 @@ def new_meaning(symb, prefix=''):
 
 def is_negative(symb):
     """Check if symbol is negative."""
-    return symb[0] == '~'
+    return symb.startswith('~')
 
 
 def negative(symb):
-- 
2.43.0

