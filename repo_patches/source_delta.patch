From 340417f2d416bbbcdfc56e48ab49c4fa27814bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:09 +0000
Subject: [PATCH 01/40] fix: use Graph.nodes, Graph.node was removed in
 networkx 2.4

The n-mode, merging, tnet, diffusion and co-investigator code raised AttributeError on every supported networkx.
---
 metaknowledge/diffusion.py       | 16 ++++-----
 metaknowledge/grantCollection.py |  6 ++--
 metaknowledge/graphHelpers.py    |  6 ++--
 metaknowledge/mkCollection.py    | 58 ++++++++++++++++----------------
 4 files changed, 43 insertions(+), 43 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index 92f9bb4..b9ce40a 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -105,7 +105,7 @@ def diffusionGraph(source, target, weighted = True, sourceType = "raw", targetTy
                     if val not in workingGraph:
                         workingGraph.add_node(val, source = False, target = True, **RtExtras)
                     else:
-                        workingGraph.node[val]["target"] = True
+                        workingGraph.nodes[val]["target"] = True
                     targetCites = Rt.get('CR')
                     if targetCites:
                         for Rs in (sourceDict[c] for c in targetCites if c in sourceDict):
@@ -419,24 +419,24 @@ def diffusionAddCountsFromSource(grph, source, target, nodeType = 'citations', e
         except StopIteration:
             pass
         count = 0
-        for n in grph.nodes_iter():
+        for n in grph.nodes():
             PBar.updateVal(.5 + .5 * (count / len(grph)), "Adding count for '{}'".format(n))
             if extraType is not None:
                 if extraKeys:
                     for key in extraKeys:
-                        grph.node[n][key] = 0
-                grph.node[n][diffusionLabel] = 0
+                        grph.nodes[n][key] = 0
+                grph.nodes[n][diffusionLabel] = 0
                 try:
                     for k, v in countsDict[n].items():
                         if k == 'TargetCount':
-                            grph.node[n][diffusionLabel] = v
+                            grph.nodes[n][diffusionLabel] = v
                         else:
                             if k:
-                                grph.node[n][k] = v
+                                grph.nodes[n][k] = v
                 except KeyError:
-                    grph.node[n][diffusionLabel] = 0
+                    grph.nodes[n][diffusionLabel] = 0
             else:
-                grph.node[n][diffusionLabel] = countsDict.get(n, 0)
+                grph.nodes[n][diffusionLabel] = countsDict.get(n, 0)
             count += 1
         PBar.finish("Done adding diffusion counts to a graph")
     return countsDict
diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 54fc347..8428c87 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -198,7 +198,7 @@ class GrantCollection(CollectionWithIDs):
                             else:
                                 grph.add_node(invest1[0], field = invest1[1])
                         elif count:
-                            grph.node[invest1[0]]['count'] += 1
+                            grph.nodes[invest1[0]]['count'] += 1
                         for invest2 in investList[i + 1:]:
                             if invest2[0] not in grph:
                                 if count:
@@ -206,7 +206,7 @@ class GrantCollection(CollectionWithIDs):
                                 else:
                                     grph.add_node(invest2[0], field = invest2[1])
                             elif count:
-                                grph.node[invest2[0]]['count'] += 1
+                                grph.nodes[invest2[0]]['count'] += 1
                             if grph.has_edge(invest1[0], invest2[0]) and weighted:
                                 grph.edges[invest1[0], invest2[0]]['weight'] += 1
                             elif weighted:
@@ -221,7 +221,7 @@ class GrantCollection(CollectionWithIDs):
                         else:
                             grph.add_node(invest1[0], field = invest1[1])
                     elif count:
-                        grph.node[invest1[0]]['count'] += 1
+                        grph.nodes[invest1[0]]['count'] += 1
             if _institutionLevel:
                 PBar.finish("Done making a co-institution network from {}".format(self))
             else:
diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 3eb5389..9db19bb 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -439,9 +439,9 @@ def writeTnetFile(grph, name, modeNameString, weighted = False, sourceMode = Non
                 else:
                     eTimeString = ''
                 if weighted:
-                    f.write("{}{} {} {}\n".format(eTimeString, grph.node[n1][nodeIndexString], grph.node[n2][nodeIndexString], eDict[weightString]))
+                    f.write("{}{} {} {}\n".format(eTimeString, grph.nodes[n1][nodeIndexString], grph.nodes[n2][nodeIndexString], eDict[weightString]))
                 else:
-                    f.write("{}{} {}\n".format(eTimeString, grph.node[n1][nodeIndexString], grph.node[n2][nodeIndexString]))
+                    f.write("{}{} {}\n".format(eTimeString, grph.nodes[n1][nodeIndexString], grph.nodes[n2][nodeIndexString]))
         PBar.finish("Done writing tnet file '{}'".format(name))
 
 def getWeight(grph, nd1, nd2, weightString = "weight", returnType = int):
@@ -715,7 +715,7 @@ def mergeGraphs(targetGraph, addedGraph, incrementedNodeVal = 'count', increment
     for addedNode, attribs in addedGraph.nodes(data = True):
         if incrementedNodeVal:
             try:
-                targetGraph.node[addedNode][incrementedNodeVal] += attribs[incrementedNodeVal]
+                targetGraph.nodes[addedNode][incrementedNodeVal] += attribs[incrementedNodeVal]
             except KeyError:
                 targetGraph.add_node(addedNode, **attribs)
         else:
diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index a9afbbe..3c80257 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -907,21 +907,21 @@ class CollectionWithIDs(Collection):
                                     grph.add_node(node1)
                                 if nodeCount:
                                     try:
-                                        grph.node[node1]['count'] += 1
+                                        grph.nodes[node1]['count'] += 1
                                     except KeyError:
-                                        grph.node[node1]['count'] = 1
+                                        grph.nodes[node1]['count'] = 1
                                 if nodeAttribute:
                                     try:
-                                        currentAttrib = grph.node[node1][nodeAttribute]
+                                        currentAttrib = grph.nodes[node1][nodeAttribute]
                                     except KeyError:
-                                        grph.node[node1][nodeAttribute] = nodeVals
+                                        grph.nodes[node1][nodeAttribute] = nodeVals
                                     else:
                                         for nodeValue in (n for n in nodeVals if n not in currentAttrib):
-                                            grph.node[node1][nodeAttribute].append(nodeValue)
+                                            grph.nodes[node1][nodeAttribute].append(nodeValue)
                         elif len(tmplst) == 1:
                             if nodeCount:
                                 try:
-                                    grph.node[tmplst[0]]['count'] += 1
+                                    grph.nodes[tmplst[0]]['count'] += 1
                                 except KeyError:
                                     grph.add_node(tmplst[0], count = 1)
                             else:
@@ -929,12 +929,12 @@ class CollectionWithIDs(Collection):
                                     grph.add_node(tmplst[0])
                             if nodeAttribute:
                                 try:
-                                    currentAttrib = grph.node[tmplst[0]][nodeAttribute]
+                                    currentAttrib = grph.nodes[tmplst[0]][nodeAttribute]
                                 except KeyError:
-                                    grph.node[tmplst[0]][nodeAttribute] = nodeVals
+                                    grph.nodes[tmplst[0]][nodeAttribute] = nodeVals
                                 else:
                                     for nodeValue in (n for n in nodeVals if n not in currentAttrib):
-                                        grph.node[tmplst[0]][nodeAttribute].append(nodeValue)
+                                        grph.nodes[tmplst[0]][nodeAttribute].append(nodeValue)
                         else:
                             pass
                     else:
@@ -944,7 +944,7 @@ class CollectionWithIDs(Collection):
                             nodeVal = str(contents)
                         if nodeCount:
                             try:
-                                grph.node[nodeVal]['count'] += 1
+                                grph.nodes[nodeVal]['count'] += 1
                             except KeyError:
                                 grph.add_node(nodeVal, count = 1)
                         else:
@@ -952,12 +952,12 @@ class CollectionWithIDs(Collection):
                                 grph.add_node(nodeVal)
                         if nodeAttribute:
                             try:
-                                currentAttrib = grph.node[nodeVal][nodeAttribute]
+                                currentAttrib = grph.nodes[nodeVal][nodeAttribute]
                             except KeyError:
-                                grph.node[nodeVal][nodeAttribute] = nodeVals
+                                grph.nodes[nodeVal][nodeAttribute] = nodeVals
                             else:
                                 for nodeValue in (n for n in nodeVals if n not in currentAttrib):
-                                    grph.node[nodeVal][nodeAttribute].append(nodeValue)
+                                    grph.nodes[nodeVal][nodeAttribute].append(nodeValue)
             if PBar:
                 PBar.finish("Done making a {} from {}".format(_networkTypeString, modes))
         return grph
@@ -1127,12 +1127,12 @@ class CollectionWithIDs(Collection):
                                 grph.add_edge(node1, node2)
                     if nodeCount:
                         try:
-                            grph.node[node1]['count'] += 1
+                            grph.nodes[node1]['count'] += 1
                         except KeyError:
                             try:
-                                grph.node[node1]['count'] = 1
+                                grph.nodes[node1]['count'] = 1
                                 if recordType:
-                                    grph.node[node1]['type'] = tag1
+                                    grph.nodes[node1]['type'] = tag1
                             except KeyError:
                                 if recordType:
                                     grph.add_node(node1, type = tag1)
@@ -1145,22 +1145,22 @@ class CollectionWithIDs(Collection):
                             else:
                                 grph.add_node(node1)
                         elif recordType:
-                            if 'type' not in grph.node[node1]:
-                                grph.node[node1]['type'] = tag1
+                            if 'type' not in grph.nodes[node1]:
+                                grph.nodes[node1]['type'] = tag1
 
                 for node2 in contents2:
                     if nodeCount:
                         try:
-                            grph.node[node2]['count'] += 1
+                            grph.nodes[node2]['count'] += 1
                         except KeyError:
                             try:
-                                grph.node[node2]['count'] = 1
+                                grph.nodes[node2]['count'] = 1
                                 if recordType:
-                                    grph.node[node2]['type'] = tag2
+                                    grph.nodes[node2]['type'] = tag2
                             except KeyError:
                                 grph.add_node(node2, count = 1)
                                 if recordType:
-                                    grph.node[node2]['type'] = tag2
+                                    grph.nodes[node2]['type'] = tag2
                     else:
                         if not grph.has_node(node2):
                             if recordType:
@@ -1168,8 +1168,8 @@ class CollectionWithIDs(Collection):
                             else:
                                 grph.add_node(node2)
                         elif recordType:
-                            if 'type' not in grph.node[node2]:
-                                grph.node[node2]['type'] = tag2
+                            if 'type' not in grph.nodes[node2]:
+                                grph.nodes[node2]['type'] = tag2
             if PBar:
                 PBar.finish("Done making a two mode network of " + tag1 + " and " + tag2)
         return grph
@@ -1281,12 +1281,12 @@ class CollectionWithIDs(Collection):
                                         grph.add_edge(node1, node2)
                         if nodeCount:
                             try:
-                                grph.node[node1]['count'] += 1
+                                grph.nodes[node1]['count'] += 1
                             except KeyError:
                                 try:
-                                    grph.node[node1]['count'] = 1
+                                    grph.nodes[node1]['count'] = 1
                                     if recordType:
-                                        grph.node[node1]['type'] = vlst1[0]
+                                        grph.nodes[node1]['type'] = vlst1[0]
                                 except KeyError:
                                     if recordType:
                                         grph.add_node(node1, type = vlst1[0])
@@ -1300,9 +1300,9 @@ class CollectionWithIDs(Collection):
                                     grph.add_node(node1)
                             elif recordType:
                                 try:
-                                    grph.node[node1]['type'] += vlst1[0]
+                                    grph.nodes[node1]['type'] += vlst1[0]
                                 except KeyError:
-                                    grph.node[node1]['type'] = vlst1[0]
+                                    grph.nodes[node1]['type'] = vlst1[0]
             if PBar:
                 PBar.finish("Done making a {}-mode network of: {}".format(len(tags), ', '.join(tags)))
         return grph
-- 
2.43.0


From 649e73a0bc0b0f77f9d533aa1ab321a217373a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:09 +0000
Subject: [PATCH 02/40] fix: count the first occurrence of nodes without edges
 in n-mode networks

---
 metaknowledge/mkCollection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 3c80257..7d97816 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -1135,9 +1135,9 @@ class CollectionWithIDs(Collection):
                                     grph.nodes[node1]['type'] = tag1
                             except KeyError:
                                 if recordType:
-                                    grph.add_node(node1, type = tag1)
+                                    grph.add_node(node1, count = 1, type = tag1)
                                 else:
-                                    grph.add_node(node1)
+                                    grph.add_node(node1, count = 1)
                     else:
                         if not grph.has_node(node1):
                             if recordType:
@@ -1289,9 +1289,9 @@ class CollectionWithIDs(Collection):
                                         grph.nodes[node1]['type'] = vlst1[0]
                                 except KeyError:
                                     if recordType:
-                                        grph.add_node(node1, type = vlst1[0])
+                                        grph.add_node(node1, count = 1, type = vlst1[0])
                                     else:
-                                        grph.add_node(node1)
+                                        grph.add_node(node1, count = 1)
                         else:
                             if not grph.has_node(node1):
                                 if recordType:
-- 
2.43.0


From eb21cca542521637ed44f736ad180c47c87bc28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:32 +0000
Subject: [PATCH 03/40] fix: localCitesOf accepts Record objects, as documented

Every Record was rejected with ValueError.
---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index af0e417..6764aeb 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1474,7 +1474,7 @@ class RecordCollection(CollectionWithIDs):
         localCites = []
         if isinstance(rec, Record):
             recCite = rec.createCitation()
-        if isinstance(rec, str):
+        elif isinstance(rec, str):
             try:
                 recCite = self.getID(rec)
             except ValueError:
-- 
2.43.0


From da1f6361fd5e02ed3d9a68b3a00aced442804e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:32 +0000
Subject: [PATCH 04/40] fix: keep the left operand's errors in |, &, - and ^ of
 collections

---
 metaknowledge/mkCollection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 7d97816..f35de85 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -237,6 +237,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             retCollection = type(self)(self._collection | other._collection, name = '{} | {}'.format(self.name, other.name), quietStart = True)
             if other.bad or self.bad:
                 retCollection.bad = True
+                retCollection.errors.update(self.errors)
                 retCollection.errors.update(other.errors)
             return retCollection
 
@@ -247,6 +248,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             retCollection = type(self)(self._collection & other._collection, name = '{} & {}'.format(self.name, other.name), quietStart = True)
             if other.bad or self.bad:
                 retCollection.bad = True
+                retCollection.errors.update(self.errors)
                 retCollection.errors.update(other.errors)
             return retCollection
 
@@ -257,6 +259,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             retCollection = type(self)(self._collection - other._collection, name = '{} - {}'.format(self.name, other.name), quietStart = True)
             if other.bad or self.bad:
                 retCollection.bad = True
+                retCollection.errors.update(self.errors)
                 retCollection.errors.update(other.errors)
             return retCollection
 
@@ -267,6 +270,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             retCollection = type(self)(self._collection ^ other._collection, name = '{} ^ {}'.format(self.name, other.name), quietStart = True)
             if other.bad or self.bad:
                 retCollection.bad = True
+                retCollection.errors.update(self.errors)
                 retCollection.errors.update(other.errors)
             return retCollection
 
-- 
2.43.0


From 031e042e3228a82696dabc2ca9f5845719fd0e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:32 +0000
Subject: [PATCH 05/40] fix: rankedSeries honours greatestFirst = False in
 pandasMode

---
 metaknowledge/mkCollection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index f35de85..9ee801d 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -659,6 +659,8 @@ class CollectionWithIDs(Collection):
                         retList.append((valString, currentRank))
             if not greatestFirst:
                 retList.reverse()
+                for column in panDict.values():
+                    column.reverse()
             if pandasMode:
                 return panDict
             else:
-- 
2.43.0


From 8ae93966eaa72cbd3ee6c0e50316c1cb917b7ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:32 +0000
Subject: [PATCH 06/40] fix: reread the files when the directory cache is
 truncated

A cache cut short by an interrupted write raised EOFError on every later load.
---
 metaknowledge/mkCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 9ee801d..ce45858 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -392,7 +392,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
         if os.path.isfile(cacheName):
             try:
                 self.__dict__ = loadCache(cacheName, flist, name, extension)
-            except (cacheError, KeyError, FileNotFoundError):
+            except (cacheError, EOFError, KeyError, FileNotFoundError):
                 os.remove(cacheName)
                 return False
             else:
-- 
2.43.0


From a6081638664d64a236bef3f50a24833592d4cfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:33 +0000
Subject: [PATCH 07/40] fix: collections made from an iterable keep its items
 and their types

Generators gave an empty collection, and the missing types made writeFile
omit the file header, so the written file could not be read back.
---
 metaknowledge/grantCollection.py  | 4 +++-
 metaknowledge/recordCollection.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 8428c87..95ead52 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -123,10 +123,12 @@ class GrantCollection(CollectionWithIDs):
                 PBar.updateVal(.5, "GrantCollection started from {}".format(type(inGrants).__name__))
                 if not name:
                     name = "Grants-from-a-{}".format(type(inGrants).__name__)
+                grantsSet = set()
                 for G in inGrants:
                     if not isinstance(G, Grant):
                         raise GrantCollectionException("A GrantCollection cannot be created from a Iterable containing {}".format(G))
-                grantsSet = set(inGrants)
+                    grantsSet.add(G)
+                    grantTypes.add(type(G).__name__)
             else:
                 raise GrantCollectionException("A GrantCollection cannot be created from {}".format(inGrants))
             CollectionWithIDs.__init__(self, grantsSet, Grant, grantTypes, name, bad, errors, quietStart = quietStart)
diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 6764aeb..1cf03e7 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -151,10 +151,12 @@ class RecordCollection(CollectionWithIDs):
                     raise RCTypeError("'{}' is not a path to a directory or file. Strings cannot be used to initialize RecordCollections".format(inCollection))
             elif isinstance(inCollection, collections.abc.Iterable):
                 PBar.updateVal(.5, "RecordCollection from an iterable started")
+                recordsSet = set()
                 for R in inCollection:
                     if not isinstance(R, Record):
                         raise RCTypeError("RecordCollections can only contain Records, '{}' is not a valid part of an input iterable.".format(R))
-                recordsSet = set(inCollection)
+                    recordsSet.add(R)
+                    recordTypes.add(type(R).__name__)
             else:
                 raise RCTypeError("A RecordCollection cannot be created from {}.".format(inCollection))
             CollectionWithIDs.__init__(self, recordsSet, Record, recordTypes, name, bad, errors)
-- 
2.43.0


From 2be2aa2feb9dc6e7e9d3f72dae395c52771134da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:33 +0000
Subject: [PATCH 08/40] fix: cached = True is ignored by GrantCollection when
 there is no directory

It raised NameError after reading the input.
---
 metaknowledge/grantCollection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 95ead52..6ed20ed 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -31,6 +31,7 @@ class GrantCollection(CollectionWithIDs):
             errors = {}
             name = name
             grantTypes = set()
+            cacheName = None
 
             if inGrants is None:
                 PBar.updateVal(.5, "Empty GrantCollection created")
@@ -132,7 +133,7 @@ class GrantCollection(CollectionWithIDs):
             else:
                 raise GrantCollectionException("A GrantCollection cannot be created from {}".format(inGrants))
             CollectionWithIDs.__init__(self, grantsSet, Grant, grantTypes, name, bad, errors, quietStart = quietStart)
-            if cached:
+            if cached and cacheName is not None:
                 PBar.updateVal(1, "Writing GrantCollection cache to {}".format(cacheName))
                 self._createCache(cacheName, flist, name, extension)
             try:
-- 
2.43.0


From 1a488b2c69d02ba9cd3783e644ddba0c917794c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:33 +0000
Subject: [PATCH 09/40] fix: citeFilter checks the citations after one that
 lacks the field

A None field raised TypeError, which ended the search of the whole record.
---
 metaknowledge/recordCollection.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 1cf03e7..8b2f185 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1553,7 +1553,7 @@ class RecordCollection(CollectionWithIDs):
                             if keyString.upper() in cite.author.upper():
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'journal':
                     for cite in R.get('citations'):
@@ -1561,7 +1561,7 @@ class RecordCollection(CollectionWithIDs):
                             if keyString.upper() in cite.journal:
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'year':
                     for cite in R.get('citations'):
@@ -1569,7 +1569,7 @@ class RecordCollection(CollectionWithIDs):
                             if int(keyString) == cite.year:
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'V':
                     for cite in R.get('citations'):
@@ -1577,7 +1577,7 @@ class RecordCollection(CollectionWithIDs):
                             if keyString.upper() in cite.V:
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'P':
                     for cite in R.get('citations'):
@@ -1585,7 +1585,7 @@ class RecordCollection(CollectionWithIDs):
                             if keyString.upper() in cite.P:
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'misc':
                     for cite in R.get('citations'):
@@ -1593,7 +1593,7 @@ class RecordCollection(CollectionWithIDs):
                             if keyString.upper() in cite.misc:
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'anonymous':
                     for cite in R.get('citations'):
-- 
2.43.0


From 8140c9102ffb038f0062bec3d7894dc2e5dbe375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:55 +0000
Subject: [PATCH 10/40] fix: count each author once per record in co-author
 networks

The i-th author of a record was counted i times, and the authors first seen in
one record shared a single citation profile.
---
 metaknowledge/recordCollection.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 8b2f185..58e4ebf 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1025,12 +1025,11 @@ class RecordCollection(CollectionWithIDs):
                     authsList = R.get('authorsFull', [])
                 if authsList:
                     authsList = list(authsList)
-                    detailedInfo = attributeMaker(R)
                     if citeProfile:
                         citesLst = R.get('citations', [])
-                    for i, auth1 in enumerate(authsList):
+                    for auth1 in authsList:
                         if auth1 not in grph:
-                            grph.add_node(auth1, **detailedInfo.copy())
+                            grph.add_node(auth1, **attributeMaker(R))
                         elif count:
                             grph.nodes[auth1]['count'] += 1
                         if citeProfile:
@@ -1039,17 +1038,8 @@ class RecordCollection(CollectionWithIDs):
                                     grph.nodes[auth1]['citeProfile'][c] += 1
                                 except KeyError:
                                     grph.nodes[auth1]['citeProfile'][c] = 1
+                    for i, auth1 in enumerate(authsList):
                         for auth2 in authsList[i + 1:]:
-                            if auth2 not in grph:
-                                grph.add_node(auth2, **detailedInfo.copy())
-                            elif count:
-                                grph.nodes[auth2]['count'] += 1
-                            if citeProfile:
-                                for c in citesLst:
-                                    try:
-                                        grph.nodes[auth2]['citeProfile'][c] += 1
-                                    except KeyError:
-                                        grph.nodes[auth2]['citeProfile'][c] = 1
                             if grph.has_edge(auth1, auth2) and weighted:
                                 grph.edges[auth1, auth2]['weight'] += 1
                             elif weighted:
-- 
2.43.0


From f7d38d0c8cfa9a9ca559db9ec523b50aaba58edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:55 +0000
Subject: [PATCH 11/40] fix: count each investigator once per grant in
 co-investigator networks

---
 metaknowledge/grantCollection.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 6ed20ed..365eee9 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -194,7 +194,7 @@ class GrantCollection(CollectionWithIDs):
                 else:
                     investList = G.getInvestigators(tags = targetTags, seperator = tagSeperator, _getTag = True)
                 if len(investList) > 1:
-                    for i, invest1 in enumerate(investList):
+                    for invest1 in investList:
                         if invest1[0] not in grph:
                             if count:
                                 grph.add_node(invest1[0], count = 1, field = invest1[1])
@@ -202,14 +202,8 @@ class GrantCollection(CollectionWithIDs):
                                 grph.add_node(invest1[0], field = invest1[1])
                         elif count:
                             grph.nodes[invest1[0]]['count'] += 1
+                    for i, invest1 in enumerate(investList):
                         for invest2 in investList[i + 1:]:
-                            if invest2[0] not in grph:
-                                if count:
-                                    grph.add_node(invest2[0], count = 1, field = invest2[1])
-                                else:
-                                    grph.add_node(invest2[0], field = invest2[1])
-                            elif count:
-                                grph.nodes[invest2[0]]['count'] += 1
                             if grph.has_edge(invest1[0], invest2[0]) and weighted:
                                 grph.edges[invest1[0], invest2[0]]['weight'] += 1
                             elif weighted:
-- 
2.43.0


From 4bff0d07cbfeb7eefd5310d2ab5d96dacc42fd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:08 +0000
Subject: [PATCH 12/40] fix: diffusionCount with compareCounts and extra values

The comparison counts ignored useAllAuthors and extraMapping and looked up the
wrong key, and records without authors raised TypeError.
---
 metaknowledge/diffusion.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index b9ce40a..0d55fb2 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -270,7 +270,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                 else:
                     sourceCounts[RsourceVals] += 1
     if compareCounts:
-        localCounts = diffusionCount(source, source, sourceType = sourceType, pandasFriendly = False,  compareCounts = False, extraValue = extraValue, _ProgBar = PBar)
+        localCounts = diffusionCount(source, source, sourceType = sourceType, pandasFriendly = False,  compareCounts = False, extraValue = extraValue, useAllAuthors = useAllAuthors, _ProgBar = PBar, extraMapping = extraMapping)
     if PBar and not _ProgBar:
         PBar.finish("Done counting the diffusion of {} sources into {} targets".format(len(source), len(target)))
     if pandasFriendly:
@@ -295,7 +295,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                     for extraVal, occCount in occ.items():
                         retDict[extraValue].append(extraVal)
                         if numAuthors:
-                            retDict["numAuthors"].append(len(R.get('authorsShort')))
+                            retDict["numAuthors"].append(len(R.get('authorsShort', [])))
                         for tag in retrievedFields:
                             retDict[tag].append(Rvals[tag])
                         retDict[targetCountString].append(occCount)
@@ -307,7 +307,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                 else:
                     Rvals = R.subDict(retrievedFields)
                     if numAuthors:
-                        retDict["numAuthors"].append(len(R.get('authorsShort')))
+                        retDict["numAuthors"].append(len(R.get('authorsShort', [])))
                     for tag in retrievedFields:
                         retDict[tag].append(Rvals[tag])
                     retDict[targetCountString].append(occ)
@@ -327,7 +327,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                         extraValueLst.append(extraVal)
                         if compareCounts:
                             try:
-                                locLst.append(localCounts[R][extraValue])
+                                locLst.append(localCounts[R][extraVal])
                             except KeyError:
                                 locLst.append(0)
                 else:
-- 
2.43.0


From c7f27936cf2f5e169c74240b1e1631e568fe23b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:26 +0000
Subject: [PATCH 13/40] fix: parse quoted Scopus values that start with a
 comma, '$' or '|'

The opening quote was not recognised, so the value swallowed the fields before it.
---
 metaknowledge/scopus/recordScopus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index a349075..3c0c63f 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -164,7 +164,7 @@ class ScopusRecord(ExtendedRecord):
             return ret
 
 firstQuotingRegex = re.compile(r'("")*"([^"]|"$)')
-innerQuotingRegex = re.compile(r'("")*"([^"|$])')
+innerQuotingRegex = re.compile(r'("")*"([^"]|$)')
 
 def scopusRecordParser(record, header = None):
     """The parser [ScopusRecords](../classes/ScopusRecord.html#metaknowledge.scopus.ScopusRecord) use. This takes a line from [scopusParser()](#metaknowledge.scopus.scopusHandlers.scopusParser) and parses it as a part of the creation of a `ScopusRecord`.
-- 
2.43.0


From f584b91054a34c2b72da45d05b1a9dc19fea9c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:26 +0000
Subject: [PATCH 14/40] fix: keep the parsing error of malformed records

It was replaced by the error about the missing id number, which also made all the
malformed records of a file equal, so that only one of them was kept.
---
 metaknowledge/WOS/recordWOS.py           | 7 ++++---
 metaknowledge/medline/recordMedline.py   | 7 ++++---
 metaknowledge/proquest/recordProQuest.py | 7 ++++---
 metaknowledge/scopus/recordScopus.py     | 7 ++++---
 4 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/metaknowledge/WOS/recordWOS.py b/metaknowledge/WOS/recordWOS.py
index a26acf3..0697285 100644
--- a/metaknowledge/WOS/recordWOS.py
+++ b/metaknowledge/WOS/recordWOS.py
@@ -78,8 +78,8 @@ class WOSRecord(ExtendedRecord):
             else:
                 raise TypeError("Unsupported input type '{}', WOSRecords cannot be created from '{}'".format(inRecord, type(inRecord)))
         except BadWOSRecord as b:
-            self.bad = True
-            self.error = b
+            bad = True
+            error = b
             fieldDict = collections.OrderedDict()
         if fieldDict is not None:
             if 'UT' in fieldDict:
@@ -87,7 +87,8 @@ class WOSRecord(ExtendedRecord):
             else:
                 self._wosNum = 'WOS:Missing'
                 bad = True
-                error = BadWOSRecord("Missing WOS number")
+                if error is None:
+                    error = BadWOSRecord("Missing WOS number")
         ExtendedRecord.__init__(self, fieldDict, self._wosNum, bad, error, sFile = sFile, sLine = sLine)
 
     def encoding(self):
diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index ca077af..259f88a 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -35,8 +35,8 @@ class MedlineRecord(ExtendedRecord):
             else:
                 raise RCTypeError("Unsupported input type '{}', PubmedRecords cannot be created from '{}'".format(inRecord, type(inRecord)))
         except BadPubmedRecord as b:
-            self.bad = True
-            self.error = b
+            bad = True
+            error = b
             fieldDict = collections.OrderedDict()
         if fieldDict is not None:
             if 'PMID' in fieldDict:
@@ -44,7 +44,8 @@ class MedlineRecord(ExtendedRecord):
             else:
                 self._pubNum = None
                 bad = True
-                error = BadPubmedRecord("Missing PMID")
+                if error is None:
+                    error = BadPubmedRecord("Missing PMID")
         ExtendedRecord.__init__(self, fieldDict, self._pubNum, bad, error, sFile = sFile, sLine = sLine)
 
     def encoding(self):
diff --git a/metaknowledge/proquest/recordProQuest.py b/metaknowledge/proquest/recordProQuest.py
index e983fe3..adf31d0 100644
--- a/metaknowledge/proquest/recordProQuest.py
+++ b/metaknowledge/proquest/recordProQuest.py
@@ -36,15 +36,16 @@ class ProQuestRecord(ExtendedRecord):
             else:
                 raise TypeError("Unsupported input type '{}', ProQuestRecords cannot be created from '{}'".format(inRecord, type(inRecord)))
         except BadProQuestRecord as b:
-            self.bad = True
-            self.error = b
+            bad = True
+            error = b
             fieldDict = collections.OrderedDict()
         try:
             self._proID = "PROQUEST:{}".format(fieldDict["ProQuest document ID"][0])
         except KeyError:
             self._proID = "PROQUEST:MISSING"
             bad = True
-            error = BadProQuestRecord("Missing ProQuest document ID")
+            if error is None:
+                error = BadProQuestRecord("Missing ProQuest document ID")
         ExtendedRecord.__init__(self, fieldDict, self._proID, bad, error, sFile =sFile, sLine = sLine)
 
     def encoding(self):
diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index 3c0c63f..57a7583 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -72,8 +72,8 @@ class ScopusRecord(ExtendedRecord):
             else:
                 raise RCTypeError("Unsupported input type '{}', ScopusRecords cannot be created from '{}'".format(inRecord, type(inRecord)))
         except (BadScopusRecord, IndexError) as b:
-            self.bad = True
-            self.error = b
+            bad = True
+            error = b
             fieldDict = collections.OrderedDict()
         if fieldDict is not None:
             if 'EID' in fieldDict:
@@ -81,7 +81,8 @@ class ScopusRecord(ExtendedRecord):
             else:
                 self._scopusNum = None
                 bad = True
-                error = BadScopusRecord("Missing EID")
+                if error is None:
+                    error = BadScopusRecord("Missing EID")
         ExtendedRecord.__init__(self, fieldDict, self._scopusNum, bad, error, sFile = sFile, sLine = sLine)
 
     def encoding(self):
-- 
2.43.0


From 76806480c75a2d7372ec74a4f439dda84dfdae61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:26 +0000
Subject: [PATCH 15/40] fix: a WOS record starting with a continuation line is
 a bad record

The IndexError made wosParser drop the rest of the file without any error.
---
 metaknowledge/WOS/recordWOS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/WOS/recordWOS.py b/metaknowledge/WOS/recordWOS.py
index 0697285..04d7445 100644
--- a/metaknowledge/WOS/recordWOS.py
+++ b/metaknowledge/WOS/recordWOS.py
@@ -184,6 +184,8 @@ def recordParser(paper):
             raise BadWOSFile("Field tag not formed correctly on line " + str(l[0]) + " : " + l[1])
         elif '   ' in l[1][:3]: #the string is three spaces in row
             #No new tag append line to current tag (last tag in tagList)
+            if not tagList:
+                raise BadWOSRecord("Continuation before the first tag on line {} : {}".format(l[0], l[1]))
             tagList[-1][1].append(l[1][3:-1])
         else:
             #New tag create new entry at the end of tagList
-- 
2.43.0


From 7ec0abf2cbae1d3e925bfec88b210dd2a70176e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:26 +0000
Subject: [PATCH 16/40] fix: unweighted citation networks of authors, journals
 and years

yearDiff is undefined for these node types, so they raised UnboundLocalError.
---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 58e4ebf..6484f18 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1676,7 +1676,7 @@ def addToNetwork(grph, nds, count, weighted, nodeType, nodeInfo, fullInfo, coreC
                     else:
                         grph.add_edge(hID, nID, weight=1)
             elif nID not in grph[hID]:
-                addedEdges.append((hID, nID, {yearDiff: yearDiff}))
+                addedEdges.append((hID, nID))
     elif len(idList) > 1:
         for i, outerID in enumerate(idList):
             for innerID in idList[i + 1:]:
-- 
2.43.0


From 6e4bcb420d009f28a2250889ee48eb7e537dacd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:34 +0000
Subject: [PATCH 17/40] fix: networkCitation applies recordToCite = False to
 all node types and to unweighted edges

---
 metaknowledge/recordCollection.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 6484f18..ab3501c 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1661,8 +1661,10 @@ def addToNetwork(grph, nds, count, weighted, nodeType, nodeInfo, fullInfo, coreC
                             grph.add_edge(hID, nID, weight=1, yearDiff=yearDiff)
                         else:
                             grph.add_edge(nID, hID, weight=1, yearDiff=yearDiff)
-                elif nID not in grph[hID]:
+                elif recordToCite:
                     addedEdges.append((hID, nID))
+                else:
+                    addedEdges.append((nID, hID))
 
             elif weighted:
                 try:
@@ -1674,9 +1676,11 @@ def addToNetwork(grph, nds, count, weighted, nodeType, nodeInfo, fullInfo, coreC
                     if recordToCite:
                         grph.add_edge(hID, nID, weight=1)
                     else:
-                        grph.add_edge(hID, nID, weight=1)
-            elif nID not in grph[hID]:
+                        grph.add_edge(nID, hID, weight=1)
+            elif recordToCite:
                 addedEdges.append((hID, nID))
+            else:
+                addedEdges.append((nID, hID))
     elif len(idList) > 1:
         for i, outerID in enumerate(idList):
             for innerID in idList[i + 1:]:
-- 
2.43.0


From 5834fa6d807fdc795e0d52efdb51213081d64c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:34 +0000
Subject: [PATCH 18/40] fix: mergeGraphs keeps the target's attributes when a
 count or weight is missing

The added graph's attributes replaced them, and a falsy incrementedEdgeVal raised AttributeError.
---
 metaknowledge/graphHelpers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 9db19bb..43e45c8 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -717,7 +717,7 @@ def mergeGraphs(targetGraph, addedGraph, incrementedNodeVal = 'count', increment
             try:
                 targetGraph.nodes[addedNode][incrementedNodeVal] += attribs[incrementedNodeVal]
             except KeyError:
-                targetGraph.add_node(addedNode, **attribs)
+                targetGraph.add_node(addedNode, **{**attribs, **targetGraph.nodes.get(addedNode, {})})
         else:
             if not targetGraph.has_node(addedNode):
                 targetGraph.add_node(addedNode, **attribs)
@@ -726,9 +726,9 @@ def mergeGraphs(targetGraph, addedGraph, incrementedNodeVal = 'count', increment
             try:
                 targetGraph.edges[edgeNode1, edgeNode2][incrementedEdgeVal] += attribs[incrementedEdgeVal]
             except KeyError:
-                targetGraph.add_edge(edgeNode1, edgeNode2, **attribs)
+                targetGraph.add_edge(edgeNode1, edgeNode2, **{**attribs, **(targetGraph.get_edge_data(edgeNode1, edgeNode2) or {})})
         else:
-            if not targetGraph.Graph.has_edge(edgeNode1, edgeNode2):
+            if not targetGraph.has_edge(edgeNode1, edgeNode2):
                 targetGraph.add_edge(edgeNode1, edgeNode2, **attribs)
 
 def graphStats(G, stats = ('nodes', 'edges', 'isolates', 'loops', 'density', 'transitivity'), makeString = True, sentenceString = False):
-- 
2.43.0


From 5a72781b4391045619b5380afa185b1b0af081f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:44 +0000
Subject: [PATCH 19/40] fix: writing graphs without edge info or with
 allSameAttribute

---
 metaknowledge/graphHelpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 43e45c8..cad2bf5 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -213,7 +213,7 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
         if extraInfo:
             csvHeader = []
             if allSameAttribute:
-                csvHeader = ['Source'] +  ['Target'] + list(grph.edges(data = True).__next__()[2].keys())
+                csvHeader = ['Source'] +  ['Target'] + list(next(iter(grph.edges(data = True)))[2].keys())
             else:
                 extraAttribs = set()
                 for eTuple in grph.edges(data = True):
@@ -253,6 +253,7 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
                 count += 1
                 if count % 1000 == 0:
                     PBar.updateVal(count / eMax * .90 + .10, "Writing edge: '{}' to '{}'".format(e[0], e[1]))
+                eDict = {}
                 eDict['Source'] = e[0]
                 eDict['Target'] = e[1]
                 try:
@@ -305,7 +306,7 @@ def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None
     else:
         csvHeader = []
         if allSameAttribute:
-            csvHeader = ['ID'] + list(grph.nodes(data = True).__next__()[1].keys())
+            csvHeader = ['ID'] + list(next(iter(grph.nodes(data = True)))[1].keys())
         else:
             extraAttribs = set()
             for n, attribs in grph.nodes(data = True):
-- 
2.43.0


From 28bb16cae11d9ab9dc6d9bbf0824012be29385b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:05 +0000
Subject: [PATCH 20/40] fix: ProQuest records list their author like the other
 record types

authorsFull was always the literal 'Author', and both fields were strings where lists of names are expected.
---
 metaknowledge/proquest/tagProcessing/specialFunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/proquest/tagProcessing/specialFunctions.py b/metaknowledge/proquest/tagProcessing/specialFunctions.py
index b694d22..84f90b9 100644
--- a/metaknowledge/proquest/tagProcessing/specialFunctions.py
+++ b/metaknowledge/proquest/tagProcessing/specialFunctions.py
@@ -1,6 +1,6 @@
 proQuestSpecialTagToFunc = {
     #'DOI' : lambda R : None,
-    'authorsShort' : lambda R : R['Author'],
+    'authorsShort' : lambda R : [R['Author']],
     #'grants' : lambda R : [],
     #'address' : '',
     'selfCitation' : lambda R: R.createCitation(),
@@ -8,7 +8,7 @@ proQuestSpecialTagToFunc = {
     'keywords' : lambda R : R['Identifier / keyword'],
     'abstract' : lambda R : R['Abstract'],
     #'citations' : '',
-    'authorsFull' : lambda R : 'Author',
+    'authorsFull' : lambda R : [R['Author']],
     #'volume' : '',
     'year' : lambda R : R['Degree date'],
     #'j9' : '',
-- 
2.43.0


From aec030f30307ac7f6f3acd4f5924459387c04e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:05 +0000
Subject: [PATCH 21/40] fix: leave citations without the requested node type
 out of networks

Scopus citations that could not be parsed have no author, journal or year, which raised AttributeError.
---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index ab3501c..df75317 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1759,7 +1759,7 @@ def makeNodeTuple(citation, idVal, nodeInfo, fullInfo, nodeType, count, coreCite
 def filterCites(cites, nodeType, dropAnon, dropNonJournals, keyWords, coreCites):
     filteredCites = []
     for c in cites:
-        if nodeType != "full" and hasattr(c, nodeType) and not getattr(c, nodeType):
+        if nodeType != "full" and not getattr(c, nodeType, None):
             pass
         elif dropNonJournals and not c.isJournal():
             pass
-- 
2.43.0


From e9bd7ec612f8d45207601c15e3e857ec5ab53af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:24 +0000
Subject: [PATCH 22/40] fix: grant csv files are not reported as bad when they
 end

Since PEP 479 the StopIteration at the end of the file became a RuntimeError,
which the parsers recorded as a decoding error of every file.
---
 metaknowledge/grants/baseGrant.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/metaknowledge/grants/baseGrant.py b/metaknowledge/grants/baseGrant.py
index c0c443d..c2e8470 100644
--- a/metaknowledge/grants/baseGrant.py
+++ b/metaknowledge/grants/baseGrant.py
@@ -119,13 +119,10 @@ def csvAndLinesReader(enumeratedFile, *csvArgs, **csvKwargs):
     'currentLineString' : '',
     }
     def readerWithSideEffects(target, datDict):
-        while True:
-            datDict['currentLineNum'], datDict['currentLineString'] = next(target)
+        for datDict['currentLineNum'], datDict['currentLineString'] in target:
             yield datDict['currentLineString']
     reader = csv.DictReader(readerWithSideEffects(enumeratedFile, currentData), *csvArgs, **csvKwargs)
-    readerIter = reader.__iter__()
-    while True:
-        row = next(readerIter)
+    for row in reader:
         yield currentData['currentLineNum'], currentData['currentLineString'], row
 
 class FallbackGrant(Grant):
-- 
2.43.0


From fd266d7a475885e97f660da243c7dbc173259061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:24 +0000
Subject: [PATCH 23/40] fix: getInvestigators and getInstitutions do not change
 the caller's list of tags

It grew with each grant, so co-investigator networks counted investigators repeatedly.
---
 metaknowledge/grants/nsercGrant.py | 4 ++++
 metaknowledge/grants/nsfGrant.py   | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/grants/nsercGrant.py b/metaknowledge/grants/nsercGrant.py
index 75ff383..849f34a 100644
--- a/metaknowledge/grants/nsercGrant.py
+++ b/metaknowledge/grants/nsercGrant.py
@@ -38,6 +38,8 @@ class NSERCGrant(Grant):
             tags = []
         elif isinstance(tags, str):
             tags = [tags]
+        else:
+            tags = list(tags)
         for k in self.keys():
             if 'name-' in k.lower() and k not in tags:
                 tags.append(k)
@@ -56,6 +58,8 @@ class NSERCGrant(Grant):
             tags = []
         elif isinstance(tags, str):
             tags = [tags]
+        else:
+            tags = list(tags)
         for k in self.keys():
             if 'institution' in k.lower() and k not in tags:
                 tags.append(k)
diff --git a/metaknowledge/grants/nsfGrant.py b/metaknowledge/grants/nsfGrant.py
index 0a4953e..a6dc4f6 100644
--- a/metaknowledge/grants/nsfGrant.py
+++ b/metaknowledge/grants/nsfGrant.py
@@ -33,7 +33,7 @@ class NSFGrant(Grant):
         elif isinstance(tags, str):
             tags = ['Investigator', tags]
         else:
-            tags.append('Investigator')
+            tags = tags + ['Investigator']
         return super().getInvestigators(tags = tags, seperator = seperator, _getTag = _getTag)
 
     def getInstitutions(self, tags = None, seperator = ";", _getTag = False):
@@ -50,7 +50,7 @@ class NSFGrant(Grant):
         elif isinstance(tags, str):
             tags = ['Institution', tags]
         else:
-            tags.append('Institution')
+            tags = tags + ['Institution']
         return super().getInvestigators(tags = tags, seperator = seperator, _getTag = _getTag)
 
 def isNSFfile(fileName, useFileName = True):
-- 
2.43.0


From 23d23d46ace99fac4cea566e636829ca572481f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:37 +0000
Subject: [PATCH 24/40] fix: tagToFull raises a KeyError for unknown tags

---
 metaknowledge/WOS/tagProcessing/funcDicts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/WOS/tagProcessing/funcDicts.py b/metaknowledge/WOS/tagProcessing/funcDicts.py
index 740dbf7..af7f4ef 100644
--- a/metaknowledge/WOS/tagProcessing/funcDicts.py
+++ b/metaknowledge/WOS/tagProcessing/funcDicts.py
@@ -35,7 +35,7 @@ def tagToFull(tag):
     try:
         return tagToFullDict[tag]
     except KeyError:
-        raise("Tag not in list of known tags")
+        raise KeyError("Tag not in list of known tags")
 
 
 def normalizeToTag(val):
-- 
2.43.0


From d7b684c9df36fb6fa3f533a3fc4c2c99cd361a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:01 +0000
Subject: [PATCH 25/40] fix: keep all of the unparsed text and its DOI in WOS
 citations

---
 metaknowledge/citation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index 13557e8..773c1d6 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -58,7 +58,7 @@ class Citation(collections.abc.Hashable):
 
     > A str containing a WOS style citation.
     """
-    wosCiteRegex = re.compile(r"([^0-9,][^,]+)?(, )?(-?[0-9]{1,5})?(, )?([^,]+)?(, (V[^,]+))?(, (P[^,]+))?($|, DOI (.+)|((.+?)(, DOI (.+))?))")
+    wosCiteRegex = re.compile(r"([^0-9,][^,]+)?(, )?(-?[0-9]{1,5})?(, )?([^,]+)?(, (V[^,]+))?(, (P[^,]+))?($|, DOI (.+)|(((?s:.+?))(, DOI (.+))?$))")
 
     scopusCiteRegex = re.compile(r"([\w\- ]+,? [\w\.\-]+\.), (([\w\- ]+,? [\w\-\.]+\., )+)?([^(]+? )?\((\d{2,5})\) ([^,]+)(, ([\w-]+)( \(([\w-]*)\))?)?(, P?P\. ([\w-]*))?(.*)")
 
-- 
2.43.0


From 447e5e9cd1565885a821f988a2ab8feb70b3bf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:01 +0000
Subject: [PATCH 26/40] fix: pages of Scopus citations without a volume

---
 metaknowledge/citation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index 773c1d6..6fff96a 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -60,7 +60,7 @@ class Citation(collections.abc.Hashable):
     """
     wosCiteRegex = re.compile(r"([^0-9,][^,]+)?(, )?(-?[0-9]{1,5})?(, )?([^,]+)?(, (V[^,]+))?(, (P[^,]+))?($|, DOI (.+)|(((?s:.+?))(, DOI (.+))?$))")
 
-    scopusCiteRegex = re.compile(r"([\w\- ]+,? [\w\.\-]+\.), (([\w\- ]+,? [\w\-\.]+\., )+)?([^(]+? )?\((\d{2,5})\) ([^,]+)(, ([\w-]+)( \(([\w-]*)\))?)?(, P?P\. ([\w-]*))?(.*)")
+    scopusCiteRegex = re.compile(r"([\w\- ]+,? [\w\.\-]+\.), (([\w\- ]+,? [\w\-\.]+\., )+)?([^(]+? )?\((\d{2,5})\) ([^,]+)(, (?!P?P\. )([\w-]+)( \(([\w-]*)\))?)?(, P?P\. ([\w-]*))?(.*)")
 
 
     #(.*?, )?[^,(]*\((\d{2,5}\))[^,]*(, [^,(]*( \(\d+\))?)?(, (p?p\. .*))?")
-- 
2.43.0


From 3a334b0927fd14d12cea3efa1e722aac13791d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:40 +0000
Subject: [PATCH 27/40] fix: report the WOS records that are skipped because of
 a malformed line

---
 metaknowledge/WOS/wosHandlers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/WOS/wosHandlers.py b/metaknowledge/WOS/wosHandlers.py
index 69c7da5..d0a5759 100644
--- a/metaknowledge/WOS/wosHandlers.py
+++ b/metaknowledge/WOS/wosHandlers.py
@@ -73,6 +73,8 @@ def wosParser(isifile):
                     try:
                         plst.add(WOSRecord(itertools.chain([line], f), sFile = isifile, sLine = line[0]))
                     except BadWOSFile as e:
+                        if error is None:
+                            error = BadWOSFile("The file '{}' has a record that could not be read, it starts on line {} and caused the following error:\n{}".format(isifile, line[0], str(e)))
                         try:
                             s = f.__next__()[1]
                             while s[:2] != 'ER':
-- 
2.43.0


From 4a5bba073eb112330f8a665790f9d11014e23bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:40 +0000
Subject: [PATCH 28/40] fix: writeBib skips bad records

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index df75317..8b7b0c7 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -413,7 +413,7 @@ class RecordCollection(CollectionWithIDs):
             try:
                 f.write('\n\n')
                 f.write(R.bibString(maxLength =  maxStringLength, WOSMode = wosMode, restrictedOutput = reducedOutput, niceID = niceIDs))
-            except BadWOSRecord:
+            except BadRecord:
                 pass
             except AttributeError:
                 raise RecordsNotCompatible("The Record '{}', with ID '{}' does not support writing to bibtext files.".format(R, R.id))
-- 
2.43.0


From 10d4a15e7ba4f90a1ff97381b99267180056b679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:40 +0000
Subject: [PATCH 29/40] fix: reread the files whatever a damaged cache raises

---
 metaknowledge/mkCollection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index ce45858..96af39e 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -392,7 +392,8 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
         if os.path.isfile(cacheName):
             try:
                 self.__dict__ = loadCache(cacheName, flist, name, extension)
-            except (cacheError, EOFError, KeyError, FileNotFoundError):
+            except Exception:
+                #A damaged cache can raise almost anything when unpickled, so it is removed and the files are reread
                 os.remove(cacheName)
                 return False
             else:
-- 
2.43.0


From abcd702837dbb492b3e8db6ff4c04530f31073df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:40 +0000
Subject: [PATCH 30/40] fix: report ProQuest files with unlisted records or a
 cut off field

---
 metaknowledge/proquest/proQuestHandlers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/proquest/proQuestHandlers.py b/metaknowledge/proquest/proQuestHandlers.py
index b32a70c..6250845 100644
--- a/metaknowledge/proquest/proQuestHandlers.py
+++ b/metaknowledge/proquest/proQuestHandlers.py
@@ -94,7 +94,7 @@ def proQuestParser(proFile):
                     #Parsing failed
                     error = BadProQuestFile("The file '{}' has parts of it that are unparsable starting at line: {}. It is likely that the seperators between the records are incorrect".format(proFile, lineNum))
                     raise StopIteration
-    except (UnicodeDecodeError, StopIteration, ValueError) as e:
+    except (UnicodeDecodeError, StopIteration, ValueError, KeyError) as e:
         if error is None:
             error = BadProQuestFile("The file '{}' has parts of it that are unparsable starting at line: {}.\nThe error was: '{}'".format(proFile, lineNum, e))
     return recSet, error
-- 
2.43.0


From fad8d05d44f137a03f09bdd0484cca9e4df435d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:46 +0000
Subject: [PATCH 31/40] fix: keep zero values in multi-mode networks

---
 metaknowledge/mkCollection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 96af39e..289ee64 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -1249,13 +1249,13 @@ class CollectionWithIDs(Collection):
                 for t in tags:
                     tmpVal = R.get(t)
                     if stemCheck:
-                        if tmpVal:
+                        if tmpVal is not None:
                             if isinstance(tmpVal, list):
                                 contents.append((t, [stemmer(str(v)) for v in tmpVal]))
                             else:
                                 contents.append((t, [stemmer(str(tmpVal))]))
                     else:
-                        if tmpVal:
+                        if tmpVal is not None:
                             if isinstance(tmpVal, list):
                                 contents.append((t, [str(v) for v in tmpVal]))
                             else:
-- 
2.43.0


From 94435198698ab65484f71582e81ced578f93f96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:20 +0000
Subject: [PATCH 32/40] fix: Scopus files with the usual columns in another
 order

---
 metaknowledge/scopus/scopusHandlers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/scopus/scopusHandlers.py b/metaknowledge/scopus/scopusHandlers.py
index 6cc1077..d778c7b 100644
--- a/metaknowledge/scopus/scopusHandlers.py
+++ b/metaknowledge/scopus/scopusHandlers.py
@@ -69,7 +69,7 @@ def scopusParser(scopusFile):
             #Get rid of the BOM
             openfile.read(1)
             header = openfile.readline()[:-1].split(',')
-            if len(set(header) ^ set(scopusHeader)) == 0:
+            if header == scopusHeader:
                 header = None
             lineNum = 0
             try:
-- 
2.43.0


From 3531e0157e66b21ffff72e6bb3806756e26352b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:20 +0000
Subject: [PATCH 33/40] fix: last lines without a line break lost their last
 character

---
 metaknowledge/medline/recordMedline.py | 4 ++--
 metaknowledge/scopus/recordScopus.py   | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index 259f88a..e87dd31 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -108,7 +108,7 @@ def medlineRecordParser(record):
     mostRecentAuthor = None
     for lineNum, line in record:
         tmptag = line[:4].rstrip()
-        contents = line[6:-1]
+        contents = line[6:].rstrip('\n')
         if tmptag.isalpha() and line[4] == '-':
             tag = tmptag
             if tag == 'AU':
@@ -120,7 +120,7 @@ def medlineRecordParser(record):
             except KeyError:
                 tagDict[tag] = [contents]
         elif line[:6] == '      ':
-            tagDict[tag][-1] += '\n' + line[6:-1]
+            tagDict[tag][-1] += '\n' + line[6:].rstrip('\n')
         elif line == '\n':
             break
         else:
diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index 57a7583..d806585 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -186,7 +186,9 @@ def scopusRecordParser(record, header = None):
     """
     if header is None:
         header = scopusHeader
-    splitRecord = record[:-1].split(',')
+    if record.endswith('\n'):
+        record = record[:-1]
+    splitRecord = record.split(',')
     tagDict = {}
     quoted = False
     for key in reversed(header):
-- 
2.43.0


From ccafe4a20f36d1ad174473f4e9df36e9fdfbf10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:45 +0000
Subject: [PATCH 34/40] fix: a short line or a continuation before the first
 tag makes a Medline record bad

---
 metaknowledge/medline/recordMedline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index e87dd31..2f7985b 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -109,7 +109,7 @@ def medlineRecordParser(record):
     for lineNum, line in record:
         tmptag = line[:4].rstrip()
         contents = line[6:].rstrip('\n')
-        if tmptag.isalpha() and line[4] == '-':
+        if tmptag.isalpha() and line[4:5] == '-':
             tag = tmptag
             if tag == 'AU':
                 mostRecentAuthor = contents
@@ -119,7 +119,7 @@ def medlineRecordParser(record):
                 tagDict[tag].append(contents)
             except KeyError:
                 tagDict[tag] = [contents]
-        elif line[:6] == '      ':
+        elif line[:6] == '      ' and tag in tagDict:
             tagDict[tag][-1] += '\n' + line[6:].rstrip('\n')
         elif line == '\n':
             break
-- 
2.43.0


From fe20e642d0c39b6ecc19917c6cb5447708560921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:45 +0000
Subject: [PATCH 35/40] fix: values of unknown tags of Medline and Scopus
 records can be read

---
 metaknowledge/medline/recordMedline.py | 2 +-
 metaknowledge/scopus/recordScopus.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index 2f7985b..e404b0b 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -57,7 +57,7 @@ class MedlineRecord(ExtendedRecord):
 
     @staticmethod
     def tagProcessingFunc(tag):
-        return medlineTagToFunc[tag]
+        return medlineTagToFunc.get(tag, lambda x : x)
 
     def specialFuncs(self, key):
         #This will usually raise a key error that needs to be caught higher up
diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index d806585..498c2b9 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -94,7 +94,7 @@ class ScopusRecord(ExtendedRecord):
 
     @staticmethod
     def tagProcessingFunc(tag):
-        return scopusTagToFunction[tag]
+        return scopusTagToFunction.get(tag, lambda x : x)
 
     def specialFuncs(self, key):
         return scopusSpecialTagToFunc[key](self)
-- 
2.43.0


From 2f7b4b2a4ce1b3febd24e9717028dac757352c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:17 +0000
Subject: [PATCH 36/40] fix: localCiteStats handles citations and records
 without Web of Science attributes

---
 metaknowledge/recordCollection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 8b7b0c7..e249df4 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1423,13 +1423,13 @@ class RecordCollection(CollectionWithIDs):
                 rCites = R.get('citations')
                 if PBar:
                     count += 1
-                    PBar.updateVal(count / recCount, "Analysing: {}".format(R.UT))
+                    PBar.updateVal(count / recCount, "Analysing: {}".format(R.id))
                 if rCites:
                     for c in rCites:
                         if keyType == keyTypesLst[0]:
                             cVal = c
                         else:
-                            cVal = getattr(c, keyType)
+                            cVal = getattr(c, keyType, None)
                             if cVal is None:
                                 continue
                         if cVal in citesDict:
-- 
2.43.0


From bb95914afddb076d18c368806d20de3c553c3f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:11 +0000
Subject: [PATCH 37/40] fix: records whose own citation is empty are joined to
 what they cite in citation networks

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index e249df4..83ea7ba 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1640,7 +1640,7 @@ def addToNetwork(grph, nds, count, weighted, nodeType, nodeInfo, fullInfo, coreC
         idList.append(nID)
 
     addedEdges = []
-    if hID:
+    if headNd is not None:
         for i in range(len(idList)):
             nID = idList[i]
             if nodeType == 'full' or nodeType == 'original':
-- 
2.43.0


From e1a8d670d79b516febdc7a68ee357993e0af103d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:01 +0000
Subject: [PATCH 38/40] fix: empty cells missing from short rows are skipped
 when grants are merged

---
 metaknowledge/grants/nsercGrant.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/grants/nsercGrant.py b/metaknowledge/grants/nsercGrant.py
index 849f34a..54d5208 100644
--- a/metaknowledge/grants/nsercGrant.py
+++ b/metaknowledge/grants/nsercGrant.py
@@ -18,9 +18,9 @@ class NSERCGrant(Grant):
 
     def update(self, other):
         for field, value in other._fieldDict.items():
-            if value == '':
+            if not value:
                 continue
-            elif self._fieldDict.get(field, '') == '':
+            elif not self._fieldDict.get(field):
                 self._fieldDict[field] = value
             else:
                 self._fieldDict[field] += "; {}".format(value)
-- 
2.43.0


From 062f1f4dddff27a985180cfb544d8148af0b8c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:57 +0000
Subject: [PATCH 39/40] fix: nodes of n-mode networks shared one list of node
 attribute values

---
 metaknowledge/mkCollection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 289ee64..afabb8b 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -921,7 +921,7 @@ class CollectionWithIDs(Collection):
                                     try:
                                         currentAttrib = grph.nodes[node1][nodeAttribute]
                                     except KeyError:
-                                        grph.nodes[node1][nodeAttribute] = nodeVals
+                                        grph.nodes[node1][nodeAttribute] = list(nodeVals)
                                     else:
                                         for nodeValue in (n for n in nodeVals if n not in currentAttrib):
                                             grph.nodes[node1][nodeAttribute].append(nodeValue)
@@ -938,7 +938,7 @@ class CollectionWithIDs(Collection):
                                 try:
                                     currentAttrib = grph.nodes[tmplst[0]][nodeAttribute]
                                 except KeyError:
-                                    grph.nodes[tmplst[0]][nodeAttribute] = nodeVals
+                                    grph.nodes[tmplst[0]][nodeAttribute] = list(nodeVals)
                                 else:
                                     for nodeValue in (n for n in nodeVals if n not in currentAttrib):
                                         grph.nodes[tmplst[0]][nodeAttribute].append(nodeValue)
@@ -961,7 +961,7 @@ class CollectionWithIDs(Collection):
                             try:
                                 currentAttrib = grph.nodes[nodeVal][nodeAttribute]
                             except KeyError:
-                                grph.nodes[nodeVal][nodeAttribute] = nodeVals
+                                grph.nodes[nodeVal][nodeAttribute] = list(nodeVals)
                             else:
                                 for nodeValue in (n for n in nodeVals if n not in currentAttrib):
                                     grph.nodes[nodeVal][nodeAttribute].append(nodeValue)
-- 
2.43.0


From 81b51fab6cf828842da08dab5edc61896c12597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:26 +0000
Subject: [PATCH 40/40] fix: Scopus citations of all authors lacked the comma
 after the author

---
 metaknowledge/scopus/recordScopus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index 498c2b9..0627ef7 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -143,7 +143,7 @@ class ScopusRecord(ExtendedRecord):
         if self.get("beginningPage", False):
             valsStr += 'PP. ' + str(self.get('beginningPage'))
         if multiCite and len(auths) > 0:
-            ret = (tuple((Citation(a + valsStr, scopusMode = True) for a in auths)))
+            ret = (tuple((Citation(a + ', ' + valsStr, scopusMode = True) for a in auths)))
         elif multiCite:
             ret = Citation(valsStr, scopusMode = True),
         else:
-- 
2.43.0

