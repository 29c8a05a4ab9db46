From db6536a208f11382552f7c320f0d12c49401ba08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:39 +0000
Subject: [PATCH 01/79] fix: gp_GetArcCapacity() returns the whole arc capacity

arcCapacity already excludes the records before the first edge, so subtracting
them under-reported the capacity and made gp_DynamicAddEdge() fail to grow
graphs of arc capacity 2 and 4.
---
 c/graphLib/graphUtils.c                                  | 2 +-
 c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 273b8ab..6be0fe8 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -341,7 +341,7 @@ void _ReinitializeGraph(graphP theGraph)
  ********************************************************************/
 int gp_GetArcCapacity(graphP theGraph)
 {
-    return theGraph->arcCapacity - gp_GetFirstEdge(theGraph);
+    return theGraph->arcCapacity;
 }
 
 /********************************************************************
diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index 92aee53..b207efe 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -50,7 +50,7 @@ void _DrawPlanar_FreeContext(void *);
 /****************************************************************************
  * DRAWPLANAR_ID - the variable used to hold the integer identifier for this
  * extension, enabling this feature's extension context to be distinguished
- * from other features' extension contexts that may be attached to a graph.
+ * from other features' extension contexts that may be attached to a graph.
  ****************************************************************************/
 
 int DRAWPLANAR_ID = 0;
-- 
2.43.0


From 72ad8718b6203bad5a686e6562e4a31c5520513e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:39 +0000
Subject: [PATCH 02/79] fix: _RestoreVertex() terminates the restored adjacency
 list at its last arc

---
 c/graphLib/graphUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 6be0fe8..0393ade 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -2285,7 +2285,7 @@ int _RestoreVertex(graphP theGraph)
         if (gp_IsArc(e_v_first))
             gp_SetPrevArc(theGraph, e_v_first, NIL);
         if (gp_IsArc(e_v_last))
-            gp_SetPrevArc(theGraph, e_v_last, NIL);
+            gp_SetNextArc(theGraph, e_v_last, NIL);
 
         // For each edge record restored to v's adjacency list, reassign the 'v' member
         //    of each twin arc to indicate v rather than u.
-- 
2.43.0


From db080fe8798a01b16a027e619d1dd1a03c9e1560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:39 +0000
Subject: [PATCH 03/79] fix: gp_RestoreVertex() also restores the edge hidden
 by a direct gp_ContractEdge()

The hidden edge stack bottom was only adjusted when the contraction was reached
through gp_IdentifyVertices(), so undoing gp_ContractEdge() left the contracted
edge hidden and its entry on the stack.
---
 c/graphLib/graphUtils.c | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 0393ade..2b54410 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -2002,6 +2002,7 @@ int gp_ContractEdge(graphP theGraph, int e)
 int _ContractEdge(graphP theGraph, int e)
 {
     int eBefore, u, v;
+    int hiddenEdgesStackBottomIndex, hiddenEdgesStackBottomValue;
 
     if (gp_IsNotArc(e))
         return NOTOK;
@@ -2013,7 +2014,25 @@ int _ContractEdge(graphP theGraph, int e)
     sp_Push(theGraph->theStack, e);
     gp_HideEdge(theGraph, e);
 
-    return gp_IdentifyVertices(theGraph, u, v, eBefore);
+    if (gp_IdentifyVertices(theGraph, u, v, eBefore) != OK)
+        return NOTOK;
+
+    // The edge contraction operation pushed one hidden edge before
+    // vertex identification pushed K hidden edges and then an integer
+    // indicating where the top of stack was before the edges were hidden.
+    // That integer indicator must be decremented, thereby incrementing
+    // the number of hidden edges to K+1.
+    // After pushing the K hidden edges and the stackBottom of
+    // the hidden edges, the vertex identification pushes
+    // six more integers to indicate edges that were moved from
+    // v to u, so the "hidden edges stackBottom" is in the next
+    // position down.
+    hiddenEdgesStackBottomIndex = sp_GetCurrentSize(theGraph->theStack) - 7;
+    hiddenEdgesStackBottomValue = sp_Get(theGraph->theStack, hiddenEdgesStackBottomIndex);
+
+    sp_Set(theGraph->theStack, hiddenEdgesStackBottomIndex, hiddenEdgesStackBottomValue - 1);
+
+    return OK;
 }
 
 /********************************************************************
@@ -2065,25 +2084,7 @@ int _IdentifyVertices(graphP theGraph, int u, int v, int eBefore)
     // essentially an edge contraction with a bit of fixup.
     if (gp_IsArc(e))
     {
-        int result = gp_ContractEdge(theGraph, e);
-
-        // The edge contraction operation pushes one hidden edge then
-        // recursively calls this method. This method then pushes K
-        // hidden edges then an integer indicating where the top of
-        // stack was before the edges were hidden. That integer
-        // indicator must be decremented, thereby incrementing the
-        // number of hidden edges to K+1.
-        // After pushing the K hidden edges and the stackBottom of
-        // the hidden edges, the recursive call to this method pushes
-        // six more integers to indicate edges that were moved from
-        // v to u, so the "hidden edges stackBottom" is in the next
-        // position down.
-        int hiddenEdgesStackBottomIndex = sp_GetCurrentSize(theGraph->theStack) - 7;
-        int hiddenEdgesStackBottomValue = sp_Get(theGraph->theStack, hiddenEdgesStackBottomIndex);
-
-        sp_Set(theGraph->theStack, hiddenEdgesStackBottomIndex, hiddenEdgesStackBottomValue - 1);
-
-        return result;
+        return gp_ContractEdge(theGraph, e);
     }
 
     // Now, u and v are not adjacent. Before we do any edge hiding or
-- 
2.43.0


From b72a584cc26cf4a89def3f1b11642aedeccc0a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:39 +0000
Subject: [PATCH 04/79] fix: make theStack large enough to hide every vertex of
 a graph with small arcCapacity

---
 c/graphLib/graphUtils.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 2b54410..f81c400 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -175,7 +175,7 @@ void _InitFunctionTable(graphP theGraph)
  The BicompRootLists and sortedDFSChildLists are of size N and start out empty.
 
  The stack, initially empty, is made big enough for a pair of integers
-     per edge record (2 * arcCapacity), or 6N integers if the arcCapacity
+     per edge record (2 * arcCapacity), or 10N integers if the arcCapacity
      was set below the default value.
 
  The edgeHoles stack, initially empty, is set to arcCapacity / 2,
@@ -212,9 +212,10 @@ int _InitGraph(graphP theGraph, int N)
     Vsize = gp_VertexIndexBound(theGraph);
     Esize = gp_EdgeIndexBound(theGraph);
 
-    // Stack size is 2 integers per arc, or 6 integers per vertex in case of small arcCapacity
+    // Stack size is 2 integers per arc, or 10 integers per vertex in case of small arcCapacity
+    // (hiding or identifying a vertex pushes 7 integers plus one per hidden edge)
     stackSize = 2 * Esize;
-    stackSize = stackSize < 6 * N ? 6 * N : stackSize;
+    stackSize = stackSize < 10 * N ? 10 * N : stackSize;
 
     // Allocate memory as described above
     if ((theGraph->V = (vertexRecP)calloc(Vsize, sizeof(vertexRec))) == NULL ||
@@ -437,15 +438,15 @@ int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
     {
         int stackSize = 2 * requiredArcCapacity;
 
-        if (stackSize < 6 * theGraph->N)
+        if (stackSize < 10 * theGraph->N)
         {
             // NOTE: Since this routine only makes the stack bigger, this
             //       calculation is not needed here because we already ensured
-            //       we had stack capacity of the greater of 2*arcs and 6*N
+            //       we had stack capacity of the greater of 2*arcs and 10*N
             //       But we do it for clarity and consistency (e.g. so this rule
             //       is not forgotten whenever a "SetArcCapacity" method or a
             //       "reduceArcCapacity" method is added)
-            stackSize = 6 * theGraph->N;
+            stackSize = 10 * theGraph->N;
         }
 
         if ((newStack = sp_New(stackSize)) == NULL)
-- 
2.43.0


From f937729e9db58faba034466bda454ece377bb88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:39 +0000
Subject: [PATCH 05/79] fix: _EnsureArcCapacity() keeps the edge records when
 reallocation fails

---
 c/graphLib/graphUtils.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index f81c400..2d4617e 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -425,6 +425,7 @@ int gp_EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
 int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
 {
     stackP newStack;
+    edgeRecP newE;
     int e, Esize = gp_EdgeIndexBound(theGraph),
            newEsize = gp_GetFirstEdge(theGraph) + requiredArcCapacity;
 
@@ -468,10 +469,12 @@ int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
     theGraph->edgeHoles = newStack;
 
     // Reallocate the edgeRec array to the new size,
-    theGraph->E = (edgeRecP)realloc(theGraph->E, newEsize * sizeof(edgeRec));
-    if (theGraph->E == NULL)
+    newE = (edgeRecP)realloc(theGraph->E, newEsize * sizeof(edgeRec));
+    if (newE == NULL)
         return NOTOK;
 
+    theGraph->E = newE;
+
     // Initialize the new edge records
     for (e = Esize; e < newEsize; e++)
         _InitEdgeRec(theGraph, e);
-- 
2.43.0


From 2e56f17a8b80a6ee3a663b9c5a71c99ca1649975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:49 +0000
Subject: [PATCH 06/79] fix: _ClearGraph() forgets the vertex info array it
 frees

---
 c/graphLib/graphUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 2d4617e..420d1bc 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -846,7 +846,7 @@ void _ClearGraph(graphP theGraph)
     if (theGraph->VI != NULL)
     {
         free(theGraph->VI);
-        theGraph->V = NULL;
+        theGraph->VI = NULL;
     }
     if (theGraph->E != NULL)
     {
-- 
2.43.0


From 8300c5eaac26b2cf6fdc1dc5ae1c6a3066153054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:36 +0000
Subject: [PATCH 07/79] fix: detach an extension whose structures cannot be
 allocated while attaching

The context was freed while still linked into the extension list of the graph.
---
 c/graphLib/homeomorphSearch/graphK33Search_Extensions.c  | 2 +-
 c/graphLib/homeomorphSearch/graphK4Search_Extensions.c   | 2 +-
 c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
index 468f724..9353c43 100644
--- a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
@@ -130,7 +130,7 @@ int  gp_AttachK33Search(graphP theGraph)
          if (_K33Search_CreateStructures(context) != OK ||
              _K33Search_InitStructures(context) != OK)
          {
-             _K33Search_FreeContext(context);
+             gp_RemoveExtension(theGraph, K33SEARCH_ID);
              return NOTOK;
          }
      }
diff --git a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
index 13ff6a0..c6bfca4 100644
--- a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
@@ -118,7 +118,7 @@ int  gp_AttachK4Search(graphP theGraph)
          if (_K4Search_CreateStructures(context) != OK ||
              _K4Search_InitStructures(context) != OK)
          {
-             _K4Search_FreeContext(context);
+             gp_RemoveExtension(theGraph, K4SEARCH_ID);
              return NOTOK;
          }
      }
diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index b207efe..e331e99 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -143,7 +143,7 @@ int  gp_AttachDrawPlanar(graphP theGraph)
          if (_DrawPlanar_CreateStructures(context) != OK ||
              _DrawPlanar_InitStructures(context) != OK)
          {
-             _DrawPlanar_FreeContext(context);
+             gp_RemoveExtension(theGraph, DRAWPLANAR_ID);
              return NOTOK;
          }
      }
-- 
2.43.0


From 726e3f07ee4c8f520fd36e1c9bcc102ee3d80eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:36 +0000
Subject: [PATCH 08/79] fix: gp_InitGraph() reports failed allocations when
 extensions are attached

The extension overloads ignored the result of the base method and did not
return the graph to the post-condition of gp_New() when they failed.
---
 c/graphLib/homeomorphSearch/graphK33Search_Extensions.c  | 9 ++++++---
 c/graphLib/homeomorphSearch/graphK4Search_Extensions.c   | 9 ++++++---
 c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c | 9 ++++++---
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
index 9353c43..6caa6d8 100644
--- a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
@@ -18,6 +18,8 @@ extern int  _getImageVertices(graphP theGraph, int *degrees, int maxDegree,
                               int *imageVerts, int maxNumImageVerts);
 extern int  _TestSubgraph(graphP theSubgraph, graphP theGraph);
 
+extern void _ClearGraph(graphP theGraph);
+
 /* Forward declarations of local functions */
 
 void _K33Search_ClearStructures(K33SearchContext *context);
@@ -260,11 +262,12 @@ int  _K33Search_InitGraph(graphP theGraph, int N)
 
 	if (_K33Search_CreateStructures(context) != OK ||
 		_K33Search_InitStructures(context) != OK)
+	{
+		_ClearGraph(theGraph);
 		return NOTOK;
+	}
 
-	context->functions.fpInitGraph(theGraph, N);
-
-    return OK;
+	return context->functions.fpInitGraph(theGraph, N);
 }
 
 /********************************************************************
diff --git a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
index c6bfca4..b7c5d09 100644
--- a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
@@ -19,6 +19,8 @@ extern int  _getImageVertices(graphP theGraph, int *degrees, int maxDegree,
 
 extern int  _TestSubgraph(graphP theSubgraph, graphP theGraph);
 
+extern void _ClearGraph(graphP theGraph);
+
 /* Forward declarations of local functions */
 
 void _K4Search_ClearStructures(K4SearchContext *context);
@@ -219,11 +221,12 @@ int  _K4Search_InitGraph(graphP theGraph, int N)
 
 	if (_K4Search_CreateStructures(context) != OK ||
 		_K4Search_InitStructures(context) != OK)
+	{
+		_ClearGraph(theGraph);
 		return NOTOK;
+	}
 
-	context->functions.fpInitGraph(theGraph, N);
-
-    return OK;
+	return context->functions.fpInitGraph(theGraph, N);
 }
 
 /********************************************************************
diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index e331e99..dab5293 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -17,6 +17,8 @@ extern int  _BreakTie(DrawPlanarContext *context, int BicompRoot, int W, int WPr
 extern int  _ComputeVisibilityRepresentation(DrawPlanarContext *context);
 extern int  _CheckVisibilityRepresentationIntegrity(DrawPlanarContext *context);
 
+extern void _ClearGraph(graphP theGraph);
+
 /* Forward declarations of local functions */
 
 void _DrawPlanar_ClearStructures(DrawPlanarContext *context);
@@ -311,11 +313,12 @@ int  _DrawPlanar_InitGraph(graphP theGraph, int N)
 
 	if (_DrawPlanar_CreateStructures(context) != OK ||
 		_DrawPlanar_InitStructures(context) != OK)
+	{
+		_ClearGraph(theGraph);
 		return NOTOK;
+	}
 
-	context->functions.fpInitGraph(theGraph, N);
-
-    return OK;
+	return context->functions.fpInitGraph(theGraph, N);
 }
 
 /********************************************************************
-- 
2.43.0


From 21edb2232cb9e1511db3c9cb523ff0144e7310a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:36 +0000
Subject: [PATCH 09/79] fix: copying an extension to a graph with larger arc
 capacity reads only the source records

---
 c/graphLib/homeomorphSearch/graphK33Search_Extensions.c  | 4 +++-
 c/graphLib/homeomorphSearch/graphK4Search_Extensions.c   | 4 +++-
 c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
index 6caa6d8..99dbf7f 100644
--- a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
@@ -316,7 +316,7 @@ void *_K33Search_DupContext(void *pContext, void *theGraph)
      if (newContext != NULL)
      {
          int VIsize = gp_PrimaryVertexIndexBound((graphP) theGraph);
-         int Esize = gp_EdgeIndexBound((graphP) theGraph);
+         int Esize = gp_EdgeIndexBound(context->theGraph);
 
          *newContext = *context;
 
@@ -332,6 +332,8 @@ void *_K33Search_DupContext(void *pContext, void *theGraph)
                  return NULL;
              }
 
+             _K33Search_InitStructures(newContext);
+
              memcpy(newContext->E, context->E, Esize*sizeof(K33Search_EdgeRec));
              memcpy(newContext->VI, context->VI, VIsize*sizeof(K33Search_VertexInfo));
              LCCopy(newContext->separatedDFSChildLists, context->separatedDFSChildLists);
diff --git a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
index b7c5d09..b525c09 100644
--- a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
@@ -272,7 +272,7 @@ void *_K4Search_DupContext(void *pContext, void *theGraph)
 
      if (newContext != NULL)
      {
-         int Esize = gp_EdgeIndexBound((graphP) theGraph);
+         int Esize = gp_EdgeIndexBound(context->theGraph);
 
          *newContext = *context;
 
@@ -288,6 +288,8 @@ void *_K4Search_DupContext(void *pContext, void *theGraph)
                  return NULL;
              }
 
+             _K4Search_InitStructures(newContext);
+
              memcpy(newContext->E, context->E, Esize*sizeof(K4Search_EdgeRec));
          }
      }
diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index dab5293..f7096ff 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -257,7 +257,7 @@ void *_DrawPlanar_DupContext(void *pContext, void *theGraph)
      if (newContext != NULL)
      {
          int VIsize = gp_PrimaryVertexIndexBound((graphP) theGraph);
-         int Esize = gp_EdgeIndexBound((graphP) theGraph);
+         int Esize = gp_EdgeIndexBound(context->theGraph);
 
          *newContext = *context;
 
@@ -273,6 +273,8 @@ void *_DrawPlanar_DupContext(void *pContext, void *theGraph)
                  return NULL;
              }
 
+             _DrawPlanar_InitStructures(newContext);
+
              // Initialize custom data structures by copying
              memcpy(newContext->E, context->E, Esize*sizeof(DrawPlanar_EdgeRec));
              memcpy(newContext->VI, context->VI, VIsize*sizeof(DrawPlanar_VertexInfo));
-- 
2.43.0


From 7d9698c65f05ba838593565e840aab95733ea6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:36 +0000
Subject: [PATCH 10/79] fix: gp_CopyExtensions() fails if an extension context
 cannot be duplicated

---
 c/graphLib/extensionSystem/graphExtensions.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c/graphLib/extensionSystem/graphExtensions.c b/c/graphLib/extensionSystem/graphExtensions.c
index 1dee8d0..9fe6532 100644
--- a/c/graphLib/extensionSystem/graphExtensions.c
+++ b/c/graphLib/extensionSystem/graphExtensions.c
@@ -487,6 +487,12 @@ int gp_CopyExtensions(graphP dstGraph, graphP srcGraph)
 
         newNext->moduleID = next->moduleID;
         newNext->context = next->dupContext(next->context, dstGraph);
+        if (newNext->context == NULL)
+        {
+            free(newNext);
+            gp_FreeExtensions(dstGraph);
+            return NOTOK;
+        }
         newNext->dupContext = next->dupContext;
         newNext->freeContext = next->freeContext;
         newNext->functions = next->functions;
-- 
2.43.0


From b852323c0d4bcbf9f8b5750c6eccf19f8d23116e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:36 +0000
Subject: [PATCH 11/79] fix: copied extensions use the function table of their
 own context

They referred to the table in the context of the source graph, so detaching an
extension from the copy after the source was freed or changed used freed or
wrong function pointers.
---
 c/graphLib/extensionSystem/graphExtensions.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/extensionSystem/graphExtensions.c b/c/graphLib/extensionSystem/graphExtensions.c
index 9fe6532..df9b484 100644
--- a/c/graphLib/extensionSystem/graphExtensions.c
+++ b/c/graphLib/extensionSystem/graphExtensions.c
@@ -495,7 +495,11 @@ int gp_CopyExtensions(graphP dstGraph, graphP srcGraph)
         }
         newNext->dupContext = next->dupContext;
         newNext->freeContext = next->freeContext;
-        newNext->functions = next->functions;
+
+        // The table of overload functions is stored in the context, so the copy
+        // must use the table in the new context
+        newNext->functions = (graphFunctionTableP)((char *)newNext->context +
+                                                   ((char *)next->functions - (char *)next->context));
         newNext->next = NULL;
 
         if (newLast != NULL)
-- 
2.43.0


From e732b553c01c2b5f48b27e4152ab9f284c94e33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:08 +0000
Subject: [PATCH 12/79] fix: gp_CopyGraph() and gp_CopyAdjacencyLists() report
 a failure to copy the stacks

---
 c/graphLib/graphUtils.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 420d1bc..f7d8687 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -941,9 +941,7 @@ int gp_CopyAdjacencyLists(graphP dstGraph, graphP srcGraph)
 
     // Tell the dstGraph how many edges it now has and where the edge holes are
     dstGraph->M = srcGraph->M;
-    sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles);
-
-    return OK;
+    return sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles);
 }
 
 /********************************************************************
@@ -1015,8 +1013,9 @@ int gp_CopyGraph(graphP dstGraph, graphP srcGraph)
 
     LCCopy(dstGraph->BicompRootLists, srcGraph->BicompRootLists);
     LCCopy(dstGraph->sortedDFSChildLists, srcGraph->sortedDFSChildLists);
-    sp_Copy(dstGraph->theStack, srcGraph->theStack);
-    sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles);
+    if (sp_Copy(dstGraph->theStack, srcGraph->theStack) != OK ||
+        sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles) != OK)
+        return NOTOK;
 
     // Copy the set of extensions, which includes copying the
     // extension data as well as the function overload tables
-- 
2.43.0


From 822e9dd9d0b4310d448b7ddfb82027ec9758e135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:08 +0000
Subject: [PATCH 13/79] fix: copying a graph leaves no stale edge records in
 the destination

gp_CopyAdjacencyLists() now also copies the direction of the edges.
---
 c/graphLib/graphUtils.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index f7d8687..f3f095d 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -937,8 +937,14 @@ int gp_CopyAdjacencyLists(graphP dstGraph, graphP srcGraph)
         gp_SetNeighbor(dstGraph, e, gp_GetNeighbor(srcGraph, e));
         gp_SetNextArc(dstGraph, e, gp_GetNextArc(srcGraph, e));
         gp_SetPrevArc(dstGraph, e, gp_GetPrevArc(srcGraph, e));
+        gp_InitEdgeFlags(dstGraph, e);
+        dstGraph->E[e].flags |= gp_GetDirection(srcGraph, e);
     }
 
+    // Initialize the edge records that are not (or no longer) in use in dstGraph
+    for (; e < gp_EdgeIndexBound(dstGraph); e++)
+        _InitEdgeRec(dstGraph, e);
+
     // Tell the dstGraph how many edges it now has and where the edge holes are
     dstGraph->M = srcGraph->M;
     return sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles);
@@ -1002,6 +1008,11 @@ int gp_CopyGraph(graphP dstGraph, graphP srcGraph)
     for (e = gp_GetFirstEdge(theGraph); e < Esize; e++)
         gp_CopyEdgeRec(dstGraph, e, srcGraph, e);
 
+    // If the dstGraph has a larger arc capacity, then initialize the rest of its EdgeRecs
+    Esize = gp_EdgeIndexBound(dstGraph);
+    for (; e < Esize; e++)
+        _InitEdgeRec(dstGraph, e);
+
     // Give the dstGraph the same size and intrinsic properties
     dstGraph->N = srcGraph->N;
     dstGraph->NV = srcGraph->NV;
-- 
2.43.0


From 6413170bebd201ac3772753a3e9c3686a657e745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:08 +0000
Subject: [PATCH 14/79] fix: gp_SetDirection() replaces the previous direction
 of the edge

---
 c/graphLib/graphStructures.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/c/graphLib/graphStructures.h b/c/graphLib/graphStructures.h
index 48d2dc4..a3d3d3a 100644
--- a/c/graphLib/graphStructures.h
+++ b/c/graphLib/graphStructures.h
@@ -148,6 +148,8 @@ extern "C"
 // to edgeFlag_Direction and e's twin arc is set to the opposing setting.
 #define gp_SetDirection(theGraph, e, edgeFlag_Direction)                                       \
 	{                                                                                          \
+		theGraph->E[e].flags &= ~EDGEFLAG_DIRECTION_MASK;                                      \
+		theGraph->E[gp_GetTwinArc(theGraph, e)].flags &= ~EDGEFLAG_DIRECTION_MASK;             \
 		if (edgeFlag_Direction == EDGEFLAG_DIRECTION_INONLY)                                   \
 		{                                                                                      \
 			theGraph->E[e].flags |= EDGEFLAG_DIRECTION_INONLY;                                 \
@@ -158,11 +160,6 @@ extern "C"
 			theGraph->E[e].flags |= EDGEFLAG_DIRECTION_OUTONLY;                                \
 			theGraph->E[gp_GetTwinArc(theGraph, e)].flags |= EDGEFLAG_DIRECTION_INONLY;        \
 		}                                                                                      \
-		else                                                                                   \
-		{                                                                                      \
-			theGraph->E[e].flags &= ~(EDGEFLAG_DIRECTION_INONLY | EDGEFLAG_DIRECTION_OUTONLY); \
-			theGraph->E[gp_GetTwinArc(theGraph, e)].flags &= ~EDGEFLAG_DIRECTION_MASK;         \
-		}                                                                                      \
 	}
 
 #define gp_CopyEdgeRec(dstGraph, edst, srcGraph, esrc) (dstGraph->E[edst] = srcGraph->E[esrc])
-- 
2.43.0


From b9754ae283218dcfd7c29dc4abc88c52c8cfef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:08 +0000
Subject: [PATCH 15/79] fix: rendered vertex labels stay within the extent of
 their vertex

A label of three or more digits that just fits its vertex was written past the
end of the vertex, over the line terminator and even over the string end.
---
 c/graphLib/planarityRelated/graphDrawPlanar.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar.c b/c/graphLib/planarityRelated/graphDrawPlanar.c
index 6b8d9e5..1c5cd67 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar.c
@@ -833,6 +833,10 @@ char *_RenderToString(graphP theEmbedding)
             sprintf(numBuffer, "%d", v - zeroBasedVertexOffset);
             if ((unsigned)(context->VI[v].end - context->VI[v].start + 1) >= strlen(numBuffer))
             {
+                // Keep the whole label within the horizontal extent of the vertex
+                if (Mid + (int)strlen(numBuffer) - 1 > context->VI[v].end)
+                    Mid = context->VI[v].end - (int)strlen(numBuffer) + 1;
+
                 memcpy((char *)visRep + (2 * Pos) * (M + 1) + Mid, (char *)numBuffer, strlen(numBuffer));
             }
             // If the vertex width is less than the label width, then fail gracefully
-- 
2.43.0


From 2c0ea69f84360871f674e9ac96ed5d25aea3d19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:27 +0000
Subject: [PATCH 16/79] fix: gp_LeastAncestor() clears the visited flags left
 by earlier steps

In particular gp_SortVertices() leaves every vertex visited, so that
no least ancestor was computed at all after it.
---
 c/graphLib/graphDFSUtils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/graphLib/graphDFSUtils.c b/c/graphLib/graphDFSUtils.c
index 997952f..60f6707 100644
--- a/c/graphLib/graphDFSUtils.c
+++ b/c/graphLib/graphDFSUtils.c
@@ -405,6 +405,8 @@ int gp_LeastAncestor(graphP theGraph)
 
     sp_ClearStack(theStack);
 
+    _ClearVertexVisitedFlags(theGraph, FALSE);
+
     // This outer loop causes the connected subgraphs of a disconnected graph to be processed
     for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v);)
     {
-- 
2.43.0


From c071936c898cf848e51b995b1d1f1784880f959c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:27 +0000
Subject: [PATCH 17/79] fix: check for a missing graph before using it in
 gp_InsertEdge(), gp_LowpointAndLeastAncestor() and gp_LeastAncestor()

---
 c/graphLib/graphDFSUtils.c |  8 ++++++--
 c/graphLib/graphUtils.c    | 12 ++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/c/graphLib/graphDFSUtils.c b/c/graphLib/graphDFSUtils.c
index 60f6707..9d8cbdc 100644
--- a/c/graphLib/graphDFSUtils.c
+++ b/c/graphLib/graphDFSUtils.c
@@ -250,12 +250,14 @@ int _SortVertices(graphP theGraph)
 
 int gp_LowpointAndLeastAncestor(graphP theGraph)
 {
-    stackP theStack = theGraph->theStack;
+    stackP theStack = NULL;
     int v, u, uneighbor, e, L, leastAncestor;
 
     if (theGraph == NULL)
         return NOTOK;
 
+    theStack = theGraph->theStack;
+
     if (!(theGraph->internalFlags & FLAGS_DFSNUMBERED))
         if (gp_CreateDFSTree(theGraph) != OK)
             return NOTOK;
@@ -378,12 +380,14 @@ int gp_LowpointAndLeastAncestor(graphP theGraph)
 
 int gp_LeastAncestor(graphP theGraph)
 {
-    stackP theStack = theGraph->theStack;
+    stackP theStack = NULL;
     int v, u, uneighbor, e, leastAncestor;
 
     if (theGraph == NULL)
         return NOTOK;
 
+    theStack = theGraph->theStack;
+
     if (!(theGraph->internalFlags & FLAGS_DFSNUMBERED))
         if (gp_CreateDFSTree(theGraph) != OK)
             return NOTOK;
diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index f3f095d..5373690 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1718,11 +1718,15 @@ int gp_DynamicAddEdge(graphP theGraph, int u, int ulink, int v, int vlink)
 int gp_InsertEdge(graphP theGraph, int u, int e_u, int e_ulink,
                   int v, int e_v, int e_vlink)
 {
-    int vertMax = gp_GetLastVirtualVertex(theGraph),
-        edgeMax = gp_EdgeInUseIndexBound(theGraph) - 1,
-        upos, vpos;
+    int vertMax, edgeMax, upos, vpos;
 
-    if (theGraph == NULL || u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
+    if (theGraph == NULL)
+        return NOTOK;
+
+    vertMax = gp_GetLastVirtualVertex(theGraph);
+    edgeMax = gp_EdgeInUseIndexBound(theGraph) - 1;
+
+    if (u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
         u > vertMax || v > vertMax ||
         e_u > edgeMax || (e_u < gp_GetFirstEdge(theGraph) && gp_IsArc(e_u)) ||
         e_v > edgeMax || (e_v < gp_GetFirstEdge(theGraph) && gp_IsArc(e_v)) ||
-- 
2.43.0


From ad53760c0c4f171120b2e2549a4e5edb05647723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:16 +0000
Subject: [PATCH 18/79] fix: attached planar drawing no longer changes the
 integrity checks of other algorithms

---
 .../graphDrawPlanar_Extensions.c              | 26 +++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index f7096ff..4be5724 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -538,7 +538,12 @@ int  _DrawPlanar_CheckEmbeddingIntegrity(graphP theGraph, graphP origGraph)
         if (context->functions.fpCheckEmbeddingIntegrity(theGraph, origGraph) != OK)
             return NOTOK;
 
-        return _CheckVisibilityRepresentationIntegrity(context);
+        // There is a visibility representation only if the planar drawing
+        // algorithm made the embedding (not, e.g., core planarity).
+        if (theGraph->embedFlags == EMBEDFLAGS_DRAWPLANAR)
+            return _CheckVisibilityRepresentationIntegrity(context);
+
+        return OK;
     }
 
     return NOTOK;
@@ -549,7 +554,24 @@ int  _DrawPlanar_CheckEmbeddingIntegrity(graphP theGraph, graphP origGraph)
 
 int  _DrawPlanar_CheckObstructionIntegrity(graphP theGraph, graphP origGraph)
 {
-     return OK;
+     if (theGraph->embedFlags == EMBEDFLAGS_DRAWPLANAR)
+     {
+         return OK;
+     }
+
+     // When not drawing, we let the superclass do the work
+     else
+     {
+        DrawPlanarContext *context = NULL;
+        gp_FindExtension(theGraph, DRAWPLANAR_ID, (void *)&context);
+
+        if (context != NULL)
+        {
+            return context->functions.fpCheckObstructionIntegrity(theGraph, origGraph);
+        }
+     }
+
+     return NOTOK;
 }
 
 /********************************************************************
-- 
2.43.0


From d3b9063cb612651695ca832843c5879820aeacf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:19 +0000
Subject: [PATCH 19/79] fix: sb_TakeString() and sb_Duplicate() handle failed
 allocation and NULL

---
 c/graphLib/io/strbuf.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/c/graphLib/io/strbuf.c b/c/graphLib/io/strbuf.c
index 1ab64a6..e42cdb3 100644
--- a/c/graphLib/io/strbuf.c
+++ b/c/graphLib/io/strbuf.c
@@ -122,7 +122,7 @@ int sb_Copy(strBufP strBufDst, strBufP strBufSrc)
  ********************************************************************/
 strBufP sb_Duplicate(strBufP theStrBuf)
 {
-    strBufP newStrBuf = sb_New(theStrBuf->capacity);
+    strBufP newStrBuf = theStrBuf == NULL ? NULL : sb_New(theStrBuf->capacity);
 
     if (newStrBuf == NULL)
         return NULL;
@@ -240,8 +240,9 @@ char *sb_TakeString(strBufP theStrBuf)
 
     theBuf = theStrBuf->buf;
     theStrBuf->buf = (char *)malloc(sizeof(char));
-    theStrBuf->buf[0] = '\0';
-    theStrBuf->size = theStrBuf->capacity = 0;
+    if (theStrBuf->buf != NULL)
+        theStrBuf->buf[0] = '\0';
+    theStrBuf->size = theStrBuf->capacity = theStrBuf->readPos = 0;
 
     return theBuf;
 }
-- 
2.43.0


From 76ff4c8a9e70f6c5cf465f5e52ef2c37163f0f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:19 +0000
Subject: [PATCH 20/79] fix: _ReadAdjMatrix() detects a truncated matrix, and
 reads unseparated flags from a string

---
 c/graphLib/io/graphIO.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 3a0fed4..eded774 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -39,11 +39,15 @@ int _ReadAdjMatrix(graphP theGraph, FILE *Infile, strBufP inBuf)
 
     // Read the number of vertices from the first line of the file
     if (Infile != NULL)
-        fscanf(Infile, " %d ", &N);
+    {
+        if (fscanf(Infile, " %d ", &N) != 1)
+            return NOTOK;
+    }
     else
     {
         sb_ReadSkipWhitespace(inBuf);
-        sscanf(sb_GetReadString(inBuf), " %d ", &N);
+        if (sscanf(sb_GetReadString(inBuf), " %d ", &N) != 1)
+            return NOTOK;
         sb_ReadSkipInteger(inBuf);
         sb_ReadSkipWhitespace(inBuf);
     }
@@ -61,12 +65,17 @@ int _ReadAdjMatrix(graphP theGraph, FILE *Infile, strBufP inBuf)
         {
             // Read each of v's w-neighbor flags
             if (Infile != NULL)
-                fscanf(Infile, " %1d", &Flag);
+            {
+                if (fscanf(Infile, " %1d", &Flag) != 1)
+                    return NOTOK;
+            }
             else
             {
                 sb_ReadSkipWhitespace(inBuf);
-                sscanf(sb_GetReadString(inBuf), " %1d", &Flag);
-                sb_ReadSkipInteger(inBuf);
+                if (sscanf(sb_GetReadString(inBuf), " %1d", &Flag) != 1)
+                    return NOTOK;
+                // The flags need not be separated, so only one is consumed
+                sb_ReadSkipChar(inBuf);
             }
 
             // Add the edge (v, w) if the flag is raised
-- 
2.43.0


From b214c8e139ea92b87540461683c1f8a2ef5c3dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:19 +0000
Subject: [PATCH 21/79] fix: _ReadAdjList() detects a truncated or malformed
 list

---
 c/graphLib/io/graphIO.c | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index eded774..416c5e8 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -129,14 +129,16 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
     {
         fgetc(Infile);
         fgetc(Infile);
-        fscanf(Infile, " %d ", &N);
+        if (fscanf(Infile, " %d ", &N) != 1)
+            return NOTOK;
     }
     else
     {
         sb_ReadSkipChar(inBuf);
         sb_ReadSkipChar(inBuf);
         sb_ReadSkipWhitespace(inBuf);
-        sscanf(sb_GetReadString(inBuf), " %d ", &N);
+        if (sscanf(sb_GetReadString(inBuf), " %d ", &N) != 1)
+            return NOTOK;
         sb_ReadSkipInteger(inBuf);
         sb_ReadSkipWhitespace(inBuf);
     }
@@ -155,10 +157,15 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
     {
         // Read the vertex number
         if (Infile != NULL)
-            fscanf(Infile, "%d", &indexValue);
+        {
+            if (fscanf(Infile, "%d", &indexValue) != 1)
+                return NOTOK;
+        }
         else
         {
-            sscanf(sb_GetReadString(inBuf), "%d", &indexValue);
+            if (sscanf(sb_GetReadString(inBuf), "%d", &indexValue) != 1)
+                return NOTOK;
+            sb_ReadSkipWhitespace(inBuf);
             sb_ReadSkipInteger(inBuf);
         }
 
@@ -174,9 +181,16 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
 
         // Skip the colon after the vertex number
         if (Infile != NULL)
-            fgetc(Infile);
+        {
+            if (fgetc(Infile) == EOF)
+                return NOTOK;
+        }
         else
+        {
+            if (*sb_GetReadString(inBuf) == '\0')
+                return NOTOK;
             sb_ReadSkipChar(inBuf);
+        }
 
         // If the vertex already has a non-empty adjacency list, then it is
         // the result of adding edges during processing of preceding vertices.
@@ -216,11 +230,15 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
         {
             // Read the value indicating the next adjacent vertex (or the list end)
             if (Infile != NULL)
-                fscanf(Infile, " %d ", &W);
+            {
+                if (fscanf(Infile, " %d ", &W) != 1)
+                    return NOTOK;
+            }
             else
             {
                 sb_ReadSkipWhitespace(inBuf);
-                sscanf(sb_GetReadString(inBuf), " %d ", &W);
+                if (sscanf(sb_GetReadString(inBuf), " %d ", &W) != 1)
+                    return NOTOK;
                 sb_ReadSkipInteger(inBuf);
                 sb_ReadSkipWhitespace(inBuf);
             }
-- 
2.43.0


From fc1e078db132c727f174d41550d6f3227a4724db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:19 +0000
Subject: [PATCH 22/79] fix: _ReadLEDAGraph() detects truncated input and
 vertices out of range

---
 c/graphLib/io/graphIO.c | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 416c5e8..e11585b 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -349,30 +349,38 @@ int _ReadLEDAGraph(graphP theGraph, FILE *Infile)
     int zeroBasedOffset = gp_GetFirstVertex(theGraph) == 0 ? 1 : 0;
 
     /* Skip the lines that say LEDA.GRAPH and give the node and edge types */
-    fgets(Line, 255, Infile);
-
-    fgets(Line, 255, Infile);
-    fgets(Line, 255, Infile);
+    for (m = 0; m < 3; m++)
+    {
+        if (fgets(Line, 255, Infile) == NULL)
+            return NOTOK;
+    }
 
     /* Read the number of vertices N, initialize the graph, then skip N. */
-    fgets(Line, 255, Infile);
-    sscanf(Line, " %d", &N);
+    if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %d", &N) != 1)
+        return NOTOK;
 
     if (gp_InitGraph(theGraph, N) != OK)
         return NOTOK;
 
     for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-        fgets(Line, 255, Infile);
+    {
+        if (fgets(Line, 255, Infile) == NULL)
+            return NOTOK;
+    }
 
     /* Read the number of edges */
-    fgets(Line, 255, Infile);
-    sscanf(Line, " %d", &M);
+    if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %d", &M) != 1)
+        return NOTOK;
 
     /* Read and add each edge, omitting loops and parallel edges */
     for (m = 0; m < M; m++)
     {
-        fgets(Line, 255, Infile);
-        sscanf(Line, " %d %d", &u, &v);
+        if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %d %d", &u, &v) != 2)
+            return NOTOK;
+
+        if (u < 1 || u > N || v < 1 || v > N)
+            return NOTOK;
+
         if (u != v && !gp_IsNeighbor(theGraph, u - zeroBasedOffset, v - zeroBasedOffset))
         {
             if ((ErrorCode = gp_DynamicAddEdge(theGraph, u - zeroBasedOffset, 0, v - zeroBasedOffset, 0)) != OK)
-- 
2.43.0


From c14afca580034a371fed4a898167cce299d27b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:19 +0000
Subject: [PATCH 23/79] fix: gp_Read() reports I/O errors and failed allocation

---
 c/graphLib/io/graphIO.c | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index e11585b..a26c133 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -424,10 +424,11 @@ int gp_Read(graphP theGraph, char *FileName)
     else if ((Infile = fopen(FileName, READTEXT)) == NULL)
         return NOTOK;
 
-    fgets(lineBuff, 255, Infile);
-    // Reset file pointer to beginning of file
-    fseek(Infile, 0, SEEK_SET);
-    if (strncmp(lineBuff, "LEDA.GRAPH", strlen("LEDA.GRAPH")) == 0)
+    // Get the first line to determine the format, then
+    // reset file pointer to beginning of file
+    if (fgets(lineBuff, 255, Infile) == NULL || fseek(Infile, 0, SEEK_SET) != 0)
+        RetVal = NOTOK;
+    else if (strncmp(lineBuff, "LEDA.GRAPH", strlen("LEDA.GRAPH")) == 0)
         RetVal = _ReadLEDAGraph(theGraph, Infile);
     else if (strncmp(lineBuff, "N=", strlen("N=")) == 0)
     {
@@ -459,16 +460,24 @@ int gp_Read(graphP theGraph, char *FileName)
     {
         void *extraData = NULL;
         long filePos = ftell(Infile);
-        long fileSize;
+        long fileSize = -1;
 
-        fseek(Infile, 0, SEEK_END);
-        fileSize = ftell(Infile);
-        fseek(Infile, filePos, SEEK_SET);
+        if (filePos < 0 || fseek(Infile, 0, SEEK_END) != 0 ||
+            (fileSize = ftell(Infile)) < 0 || fseek(Infile, filePos, SEEK_SET) != 0)
+            RetVal = NOTOK;
 
-        if (filePos < fileSize)
+        else if (filePos < fileSize)
         {
             extraData = malloc(fileSize - filePos + 1);
-            fread(extraData, fileSize - filePos, 1, Infile);
+            if (extraData == NULL || fread(extraData, fileSize - filePos, 1, Infile) != 1)
+            {
+                if (extraData != NULL)
+                    free(extraData);
+                extraData = NULL;
+                RetVal = NOTOK;
+            }
+            else
+                ((char *)extraData)[fileSize - filePos] = '\0';
         }
         /*
                 // Useful for quick debugging of IO extensibility
@@ -489,6 +498,10 @@ int gp_Read(graphP theGraph, char *FileName)
         }
     }
 
+    // An I/O error may be reported by the stream only
+    if (Infile != NULL && ferror(Infile) && RetVal == OK)
+        RetVal = NOTOK;
+
     if (strcmp(FileName, "stdin") != 0 && Infile != NULL)
         fclose(Infile);
 
-- 
2.43.0


From 6fa5496039c38f913174a5689085d0aaa606debb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:19 +0000
Subject: [PATCH 24/79] fix: gp_ReadFromString() rejects a NULL string and
 frees its buffer on unsupported input

---
 c/graphLib/io/graphIO.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index a26c133..ddfe054 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -524,11 +524,15 @@ int gp_ReadFromString(graphP theGraph, char *inputStr)
     int RetVal;
     bool extraDataAllowed = false;
 
-    strBufP inBuf = sb_New(0);
+    strBufP inBuf = NULL;
+
+    if (inputStr == NULL)
+        return NOTOK;
+
+    inBuf = sb_New(0);
     if (inBuf == NULL)
     {
-        if (inputStr != NULL)
-            free(inputStr);
+        free(inputStr);
         return NOTOK;
     }
 
@@ -544,8 +548,8 @@ int gp_ReadFromString(graphP theGraph, char *inputStr)
 
     if (strncmp(inputStr, "LEDA.GRAPH", strlen("LEDA.GRAPH")) == 0)
     {
-        if (inputStr != NULL)
-            free(inputStr);
+        sb_Free(&inBuf);
+        free(inputStr);
         return NOTOK;
     }
     else if (strncmp(inputStr, "N=", strlen("N=")) == 0)
-- 
2.43.0


From 1f1f0e8664a2bc77efc5abedfef04f2b21602dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:19 +0000
Subject: [PATCH 25/79] fix: _WriteAdjMatrix() frees its row buffer on errors
 and reports failed allocation

---
 c/graphLib/io/graphIO.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index ddfe054..b442741 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -722,7 +722,10 @@ int _WriteAdjMatrix(graphP theGraph, FILE *Outfile, strBufP outBuf)
         while (gp_IsArc(e))
         {
             if (gp_GetDirection(theGraph, e) == EDGEFLAG_DIRECTION_INONLY)
+            {
+                free(Row);
                 return NOTOK;
+            }
 
             if (gp_GetNeighbor(theGraph, e) > v)
                 Row[gp_GetNeighbor(theGraph, e) - gp_GetFirstVertex(theGraph)] = '1';
@@ -736,8 +739,11 @@ int _WriteAdjMatrix(graphP theGraph, FILE *Outfile, strBufP outBuf)
         // Write the row to the file or string buffer
         if (Outfile != NULL)
             fprintf(Outfile, "%s", Row);
-        else
-            sb_ConcatString(outBuf, Row);
+        else if (sb_ConcatString(outBuf, Row) != OK)
+        {
+            free(Row);
+            return NOTOK;
+        }
     }
 
     free(Row);
-- 
2.43.0


From 3ac2630f7569a6142eaa65b179f0297224525ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:19 +0000
Subject: [PATCH 26/79] fix: _WriteAdjList() checks for a missing graph before
 using it

---
 c/graphLib/io/graphIO.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index b442741..70750dd 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -613,12 +613,14 @@ int _ReadPostprocess(graphP theGraph, void *extraData, long extraDataSize)
 int _WriteAdjList(graphP theGraph, FILE *Outfile, strBufP outBuf)
 {
     int v, e;
-    int zeroBasedOffset = (theGraph->internalFlags & FLAGS_ZEROBASEDIO) ? gp_GetFirstVertex(theGraph) : 0;
+    int zeroBasedOffset;
     char numberStr[128];
 
     if (theGraph == NULL || (Outfile == NULL && outBuf == NULL))
         return NOTOK;
 
+    zeroBasedOffset = (theGraph->internalFlags & FLAGS_ZEROBASEDIO) ? gp_GetFirstVertex(theGraph) : 0;
+
     // Write the number of vertices of the graph to the file or string buffer
     if (Outfile != NULL)
         fprintf(Outfile, "N=%d\n", theGraph->N);
-- 
2.43.0


From 99cf55ca46c323b611330989c19d2f72b8fe6d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:19 +0000
Subject: [PATCH 27/79] fix: gp_Write() reports failed writes, and writes no
 extra data after closing a G6 file

---
 c/graphLib/io/graphIO.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 70750dd..c787412 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -943,7 +943,9 @@ int gp_Write(graphP theGraph, char *FileName, int Mode)
         break;
     }
 
-    if (RetVal == OK)
+    // As in gp_Read(), "extra data" is not allowed for .g6 format (in
+    // which case the file has already been closed by the G6WriteIterator)
+    if (RetVal == OK && Outfile != NULL)
     {
         void *extraData = NULL;
         long extraDataSize;
@@ -958,11 +960,15 @@ int gp_Write(graphP theGraph, char *FileName, int Mode)
         }
     }
 
-    if (strcmp(FileName, "stdout") == 0 || strcmp(FileName, "stderr") == 0)
-        fflush(Outfile);
+    // Any failed write since opening the file is reported by the stream
+    if (Outfile != NULL)
+    {
+        if (fflush(Outfile) != 0 || ferror(Outfile))
+            RetVal = NOTOK;
 
-    else if (Outfile != NULL && fclose(Outfile) != 0)
-        RetVal = NOTOK;
+        if (Outfile != stdout && Outfile != stderr && fclose(Outfile) != 0)
+            RetVal = NOTOK;
+    }
 
     return RetVal;
 }
-- 
2.43.0


From 4489b760b516fe0ea2c4ba9613e0aeafc713022c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:19 +0000
Subject: [PATCH 28/79] fix: gp_WriteToString() reports failed allocation and
 returns no partial string

---
 c/graphLib/io/graphIO.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index c787412..1b2fa5c 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -992,20 +992,23 @@ int gp_Write(graphP theGraph, char *FileName, int Mode)
 int gp_WriteToString(graphP theGraph, char **pOutputStr, int Mode)
 {
     int RetVal;
-    strBufP outBuf = sb_New(0);
+    strBufP outBuf = NULL;
 
-    if (theGraph == NULL || pOutputStr == NULL || outBuf == NULL)
-    {
-        sb_Free(&outBuf);
+    if (theGraph == NULL || pOutputStr == NULL)
+        return NOTOK;
+
+    *pOutputStr = NULL;
+
+    // As in gp_ReadFromString(), "extra data" is not allowed for .g6 format
+    if (Mode == WRITE_G6)
+        return _WriteGraphToG6String(theGraph, pOutputStr);
+
+    outBuf = sb_New(0);
+    if (outBuf == NULL)
         return NOTOK;
-    }
 
     switch (Mode)
     {
-    case WRITE_G6:
-        RetVal = _WriteGraphToG6String(theGraph, pOutputStr);
-        sb_Free(&outBuf);
-        break;
     case WRITE_ADJLIST:
         RetVal = _WriteAdjList(theGraph, NULL, outBuf);
         break;
@@ -1026,13 +1029,13 @@ int gp_WriteToString(graphP theGraph, char **pOutputStr, int Mode)
 
         if (extraData != NULL)
         {
-            for (int i = 0; i < extraDataSize; i++)
-                sb_ConcatChar(outBuf, ((char *)extraData)[i]);
+            for (int i = 0; i < extraDataSize && RetVal == OK; i++)
+                RetVal = sb_ConcatChar(outBuf, ((char *)extraData)[i]);
             free(extraData);
         }
     }
 
-    if (outBuf != NULL)
+    if (RetVal == OK)
         *pOutputStr = sb_TakeString(outBuf);
     sb_Free(&outBuf);
 
-- 
2.43.0


From 5b7034321957425bec9f4cdb1af61a67b8810013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:07 +0000
Subject: [PATCH 29/79] fix: the G6 single graph readers return the result of
 reading the graph

---
 c/graphLib/io/g6-read-iterator.c | 57 ++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 24 deletions(-)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 55759f4..bf0a16d 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -744,9 +744,7 @@ int _ReadGraphFromG6FilePath(graphP pGraphToRead, char *pathToG6File)
 	{
 		ErrorMessage("Unable to begin .g6 read iteration.\n");
 
-		exitCode = freeG6ReadIterator(&pG6ReadIterator);
-
-		if (exitCode != OK)
+		if (freeG6ReadIterator(&pG6ReadIterator) != OK)
 			ErrorMessage("Unable to free G6ReadIterator.\n");
 
 		return exitCode;
@@ -756,14 +754,19 @@ int _ReadGraphFromG6FilePath(graphP pGraphToRead, char *pathToG6File)
 	if (exitCode != OK)
 		ErrorMessage("Unable to read graph from .g6 read iterator.\n");
 
-	exitCode = endG6ReadIteration(pG6ReadIterator);
-	if (exitCode != OK)
+	if (endG6ReadIteration(pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to end G6ReadIterator.\n");
-	
-	exitCode = freeG6ReadIterator(&pG6ReadIterator);
+		if (exitCode == OK)
+			exitCode = NOTOK;
+	}
 
-	if (exitCode != OK)
+	if (freeG6ReadIterator(&pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to free G6ReadIterator.\n");
+		if (exitCode == OK)
+			exitCode = NOTOK;
+	}
 
 	return exitCode;
 }
@@ -790,9 +793,7 @@ int _ReadGraphFromG6FilePointer(graphP pGraphToRead, FILE *g6Infile)
 	{
 		ErrorMessage("Unable to begin .g6 read iteration.\n");
 
-		exitCode = freeG6ReadIterator(&pG6ReadIterator);
-
-		if (exitCode != OK)
+		if (freeG6ReadIterator(&pG6ReadIterator) != OK)
 			ErrorMessage("Unable to free G6ReadIterator.\n");
 
 		return exitCode;
@@ -802,14 +803,19 @@ int _ReadGraphFromG6FilePointer(graphP pGraphToRead, FILE *g6Infile)
 	if (exitCode != OK)
 		ErrorMessage("Unable to read graph from .g6 read iterator.\n");
 
-	exitCode = endG6ReadIteration(pG6ReadIterator);
-	if (exitCode != OK)
+	if (endG6ReadIteration(pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to end G6ReadIterator.\n");
-	
-	exitCode = freeG6ReadIterator(&pG6ReadIterator);
+		if (exitCode == OK)
+			exitCode = NOTOK;
+	}
 
-	if (exitCode != OK)
+	if (freeG6ReadIterator(&pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to free G6ReadIterator.\n");
+		if (exitCode == OK)
+			exitCode = NOTOK;
+	}
 
 	return exitCode;
 }
@@ -839,9 +845,7 @@ int _ReadGraphFromG6String(graphP pGraphToRead, char *g6EncodedString)
 	{
 		ErrorMessage("Unable to begin .g6 read iteration.\n");
 
-		exitCode = freeG6ReadIterator(&pG6ReadIterator);
-
-		if (exitCode != OK)
+		if (freeG6ReadIterator(&pG6ReadIterator) != OK)
 			ErrorMessage("Unable to free G6ReadIterator.\n");
 
 		return exitCode;
@@ -851,14 +855,19 @@ int _ReadGraphFromG6String(graphP pGraphToRead, char *g6EncodedString)
 	if (exitCode != OK)
 		ErrorMessage("Unable to read graph from .g6 read iterator.\n");
 
-	exitCode = endG6ReadIteration(pG6ReadIterator);
-	if (exitCode != OK)
+	if (endG6ReadIteration(pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to end G6ReadIterator.\n");
-	
-	exitCode = freeG6ReadIterator(&pG6ReadIterator);
+		if (exitCode == OK)
+			exitCode = NOTOK;
+	}
 
-	if (exitCode != OK)
+	if (freeG6ReadIterator(&pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to free G6ReadIterator.\n");
+		if (exitCode == OK)
+			exitCode = NOTOK;
+	}
 
 	return exitCode;
 }
-- 
2.43.0


From f78dee9572eb2151976981d1ccec71cbace52fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:07 +0000
Subject: [PATCH 30/79] fix: the G6 read iterator reports I/O errors and a
 missing first graph instead of the end of input

---
 c/graphLib/io/g6-read-iterator.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index bf0a16d..4ecdcc8 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -506,6 +506,23 @@ int readGraphUsingG6ReadIterator(G6ReadIterator *pG6ReadIterator)
 		
 		pG6ReadIterator->numGraphsRead = numGraphsRead;
 	}
+	else if (g6Input->pFile != NULL && ferror(g6Input->pFile))
+	{
+		ErrorMessage("Unable to read from .g6 file.\n");
+		exitCode = NOTOK;
+	}
+	// The order of the first graph has been read already, so its encoding must follow
+	// (except that the encoding of the graph of order 1 is empty)
+	else if (numGraphsRead == 0)
+	{
+		if (numCharsForGraphEncoding > 0)
+		{
+			ErrorMessage("Unexpected end of .g6 input before the encoding of the first graph.\n");
+			exitCode = NOTOK;
+		}
+		else
+			pG6ReadIterator->numGraphsRead = 1;
+	}
 	else
 		pG6ReadIterator->currGraph = NULL;
 
-- 
2.43.0


From c137fada9be59eb4c23d5e5134d9e05dfd53e884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:07 +0000
Subject: [PATCH 31/79] fix: G6 decoding checks the graph order characters and
 handles graphs of order 1

---
 c/graphLib/io/g6-read-iterator.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 4ecdcc8..5b87363 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -378,6 +378,11 @@ int _getGraphOrder(strOrFileP g6Input, int *graphOrder)
 		for (int i = 2; i >= 0; i--)
 		{
 			graphChar = sf_getc(g6Input) - 63;
+			if (graphChar < 0 || graphChar > 63)
+			{
+				ErrorMessage("Invalid graph order signifier.\n");
+				return NOTOK;
+			}
 			n |= graphChar << (6 * i);
 		}
 
@@ -551,7 +556,14 @@ int _checkGraphOrder(char *graphBuff, int graphOrder)
 		int orderCharIndex = 2;
 
 		for (int i = 1; i < 4; i++)
+		{
+			if (graphBuff[i] < 63)
+			{
+				ErrorMessage("Invalid graph order signifier.\n");
+				return NOTOK;
+			}
 			n |= (graphBuff[i] - 63) << (6 * orderCharIndex--);
+		}
 	}
 	else if (currChar > 62 && currChar < 126)
 		n = currChar - 63;
@@ -604,7 +616,7 @@ int _validateGraphEncoding(char *graphBuff, const int graphOrder, const int numC
 	// Check that there are no extraneous bits in representation (since we pad out to a
 	// multiple of 6 before splitting into bytes and adding 63 to each byte)
 	int expectedNumPaddingZeroes = _getExpectedNumPaddingZeroes(graphOrder, numChars);
-	char finalByte = graphBuff[numChars - 1] - 63;
+	char finalByte = numChars > 0 ? graphBuff[numChars - 1] - 63 : 0;
 	int numPaddingZeroes = 0;
 	for (int i = 0; i < expectedNumPaddingZeroes; i++)
 	{
-- 
2.43.0


From 6a638f8e21a51fb165641985df2dafd631e5c268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:07 +0000
Subject: [PATCH 32/79] fix: the G6 readers release the file or string given to
 them also when they cannot begin

---
 c/graphLib/io/g6-read-iterator.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 5b87363..68a4ff4 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -151,6 +151,8 @@ int beginG6ReadIterationFromG6FilePointer(G6ReadIterator *pG6ReadIterator, FILE
 	if (g6Input == NULL)
 	{
 		ErrorMessage("Unable to allocate string-or-file container.\n");
+		if (g6Infile != stdin)
+			fclose(g6Infile);
 		return NOTOK;
 	}
 
@@ -168,6 +170,8 @@ int beginG6ReadIterationFromG6String(G6ReadIterator *pG6ReadIterator, char *g6In
 	if (g6InputStr == NULL || strlen(g6InputStr) <= 0)
 	{
 		ErrorMessage("g6InputStr must not be null or empty string.\n");
+		if (g6InputStr != NULL)
+			free(g6InputStr);
 		return NOTOK;
 	}
 
@@ -176,6 +180,7 @@ int beginG6ReadIterationFromG6String(G6ReadIterator *pG6ReadIterator, char *g6In
 	if (g6Input == NULL)
 	{
 		ErrorMessage("Unable to allocate string-or-file container.\n");
+		free(g6InputStr);
 		return NOTOK;
 	}
 
@@ -813,6 +818,8 @@ int _ReadGraphFromG6FilePointer(graphP pGraphToRead, FILE *g6Infile)
 	if (exitCode != OK)
 	{
 		ErrorMessage("Unable to allocate G6ReadIterator.\n");
+		if (g6Infile != NULL && g6Infile != stdin)
+			fclose(g6Infile);
 		return exitCode;
 	}
 
@@ -856,6 +863,8 @@ int _ReadGraphFromG6String(graphP pGraphToRead, char *g6EncodedString)
 	if (g6EncodedString == NULL || strlen(g6EncodedString) == 0)
 	{
 		ErrorMessage("Input string is empty.\n");
+		if (g6EncodedString != NULL)
+			free(g6EncodedString);
 		return NOTOK;
 	}
 
@@ -865,6 +874,7 @@ int _ReadGraphFromG6String(graphP pGraphToRead, char *g6EncodedString)
 	if (exitCode != OK)
 	{
 		ErrorMessage("Unable to allocate G6ReadIterator.\n");
+		free(g6EncodedString);
 		return exitCode;
 	}
 
-- 
2.43.0


From 190e0b6930f1b1628fd71c80416932bb295b19c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:07 +0000
Subject: [PATCH 33/79] fix: allocating a G6 iterator without a graph fails

---
 c/graphLib/io/g6-read-iterator.c  | 4 ++--
 c/graphLib/io/g6-write-iterator.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 68a4ff4..0988f04 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -37,9 +37,9 @@ int allocateG6ReadIterator(G6ReadIterator **ppG6ReadIterator, graphP pGraph)
 	{
 		ErrorMessage("Must allocate graph to be used by G6ReadIterator.\n");
 
-		exitCode = freeG6ReadIterator(ppG6ReadIterator);
+		exitCode = NOTOK;
 
-		if (exitCode != OK)
+		if (freeG6ReadIterator(ppG6ReadIterator) != OK)
 			ErrorMessage("Unable to free the G6ReadIterator.\n");
 	}
 	else
diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index 44f0691..a05f171 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -39,9 +39,9 @@ int allocateG6WriteIterator(G6WriteIterator **ppG6WriteIterator, graphP pGraph)
 	{
 		ErrorMessage("[ERROR] Must allocate and initialize graph with an order greater than 0 to use the G6WriteIterator.\n");
 
-		exitCode = freeG6WriteIterator(ppG6WriteIterator);
+		exitCode = NOTOK;
 
-		if (exitCode != OK)
+		if (freeG6WriteIterator(ppG6WriteIterator) != OK)
 			ErrorMessage("Unable to free the G6WriteIterator.\n");
 	}
 	else
-- 
2.43.0


From 14d5f2b6622ca7d09b7861e340c7db851bc08a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:10 +0000
Subject: [PATCH 34/79] fix: G6 encoding writes the order of a graph of order 1

---
 c/graphLib/io/g6-write-iterator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index a05f171..54f3577 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -323,7 +323,7 @@ int _encodeAdjMatAsG6(G6WriteIterator *pG6WriteIterator) {
 			g6Encoding[3 - i] = intermediate & 63;
 			g6Encoding[3 - i] += 63;
 		}
-	} else if (graphOrder > 1 && graphOrder < 63) {
+	} else if (graphOrder > 0 && graphOrder < 63) {
 		g6Encoding[0] = graphOrder + 63;
 	}
 
-- 
2.43.0


From ca1ca0366a1b4ae90896bb74c8950bb6f59d96da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:10 +0000
Subject: [PATCH 35/79] fix: G6 encoding leaves its buffers to the iterator on
 errors

---
 c/graphLib/io/g6-write-iterator.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index 54f3577..3668c0a 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -373,8 +373,6 @@ int _encodeAdjMatAsG6(G6WriteIterator *pG6WriteIterator) {
 		if (exitCode != OK)
 		{
 			ErrorMessage("Unable to fetch next edge in graph.\n");
-			free(columnOffsets);
-			free(g6Encoding);
 			return exitCode;
 		}
 	}
-- 
2.43.0


From 09253648bb5220200871bc4c4dd3e01e9946c015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:10 +0000
Subject: [PATCH 36/79] fix: the G6 write iterator separates and counts the
 graphs it writes

---
 c/graphLib/io/g6-write-iterator.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index 3668c0a..7b1adb1 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -453,11 +453,20 @@ int _printEncodedGraph(G6WriteIterator *pG6WriteIterator)
 		return NOTOK;
 	}
 
+	// Each graph is on a line of its own
+	if (pG6WriteIterator->numGraphsWritten > 0 && sf_fputs("\n", pG6WriteIterator->g6Output) < 0)
+	{
+		ErrorMessage("Failed to output the line separator.\n");
+		return NOTOK;
+	}
+
 	if (sf_fputs(pG6WriteIterator->currGraphBuff, pG6WriteIterator->g6Output) < 0)
 	{
 		ErrorMessage("Failed to output all characters of g6 encoding.\n");
 		exitCode = NOTOK;
 	}
+	else
+		pG6WriteIterator->numGraphsWritten++;
 
 	return exitCode;
 }
-- 
2.43.0


From 3c5d20563cb67ee86f5dc43dcb6de89c081f09dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:10 +0000
Subject: [PATCH 37/79] fix: the G6 write iterator handles failed allocations
 and releases its output once

---
 c/graphLib/io/g6-write-iterator.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index 7b1adb1..ce4e257 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -162,6 +162,14 @@ int beginG6WriteIterationToG6FilePointer(G6WriteIterator *pG6WriteIterator, FILE
 
 	pG6WriteIterator->g6Output = sf_New(g6Outfile, NULL);
 
+	if (pG6WriteIterator->g6Output == NULL)
+	{
+		ErrorMessage("Unable to allocate string-or-file container.\n");
+		if (g6Outfile != stdout && g6Outfile != stderr)
+			fclose(g6Outfile);
+		return NOTOK;
+	}
+
 	exitCode = _beginG6WriteIteration(pG6WriteIterator);
 
 	if (exitCode != OK)
@@ -183,11 +191,24 @@ int beginG6WriteIterationToG6String(G6WriteIterator *pG6WriteIterator, char **g6
 	if ((*g6OutputStr) == NULL)
 	{
 		(*g6OutputStr) = (char *) malloc(1 * sizeof(char));
+		if ((*g6OutputStr) == NULL)
+		{
+			ErrorMessage("Unable to allocate memory for .g6 output string.\n");
+			return NOTOK;
+		}
 		(*g6OutputStr)[0] = '\0';
 	}
 
 	pG6WriteIterator->g6Output = sf_New(NULL, (*g6OutputStr));
 
+	if (pG6WriteIterator->g6Output == NULL)
+	{
+		ErrorMessage("Unable to allocate string-or-file container.\n");
+		free(*g6OutputStr);
+		(*g6OutputStr) = NULL;
+		return NOTOK;
+	}
+
 	exitCode = _beginG6WriteIteration(pG6WriteIterator);
 
 	if (exitCode != OK)
@@ -601,6 +622,8 @@ int _WriteGraphToG6FilePointer(graphP pGraph, FILE *g6Outfile)
 	{
 		ErrorMessage("Unable to allocate G6WriteIterator.\n");
 		freeG6WriteIterator(&pG6WriteIterator);
+		if (g6Outfile != NULL && g6Outfile != stdout && g6Outfile != stderr)
+			fclose(g6Outfile);
 		return exitCode;
 	}
 
@@ -662,13 +685,18 @@ int _WriteGraphToG6String(graphP pGraph, char **g6OutputStr)
 	{
 		ErrorMessage("Unable to begin G6 write iteration.\n");
 		freeG6WriteIterator(&pG6WriteIterator);
+		(*g6OutputStr) = NULL;
 		return exitCode;
 	}
 
 	exitCode = writeGraphUsingG6WriteIterator(pG6WriteIterator);
 
 	if (exitCode != OK)
+	{
 		ErrorMessage("Unable to write graph using G6WriteIterator.\n");
+		// The output string is owned, and so freed, by the iterator
+		(*g6OutputStr) = NULL;
+	}
 	else
 	{
 		(*g6OutputStr) = sf_takeTheStr(pG6WriteIterator->g6Output);
-- 
2.43.0


From a4792cf349850048397e1047c1b69b57078ba0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:10 +0000
Subject: [PATCH 38/79] fix: the G6 write iterator rejects graph orders that it
 cannot encode

---
 c/graphLib/io/g6-write-iterator.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index ce4e257..bad3ff0 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -221,6 +221,12 @@ int _beginG6WriteIteration(G6WriteIterator *pG6WriteIterator)
 {
 	int exitCode = OK;
 
+	if (_getNumCharsForGraphOrder(pG6WriteIterator->currGraph->N) < 0)
+	{
+		ErrorMessage("Graph order is too large for the G6WriteIterator.\n");
+		return NOTOK;
+	}
+
 	char *g6Header = ">>graph6<<";
 	if (sf_fputs(g6Header, pG6WriteIterator->g6Output) < 0)
 	{
-- 
2.43.0


From 22c2658ec46f8d730b9189b0103fde83c7186bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:10 +0000
Subject: [PATCH 39/79] fix: gp_DrawPlanar_RenderToFile() reports failed writes

---
 c/graphLib/planarityRelated/graphDrawPlanar.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar.c b/c/graphLib/planarityRelated/graphDrawPlanar.c
index 1c5cd67..cf92f65 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar.c
@@ -904,10 +904,11 @@ int gp_DrawPlanar_RenderToString(graphP theEmbedding, char **pRenditionString)
  ********************************************************************/
 int gp_DrawPlanar_RenderToFile(graphP theEmbedding, char *theFileName)
 {
-    if (theEmbedding != NULL && sp_IsEmpty(theEmbedding->edgeHoles))
+    if (theEmbedding != NULL && theFileName != NULL && sp_IsEmpty(theEmbedding->edgeHoles))
     {
         FILE *outfile;
         char *theRendition;
+        int RetVal = OK;
 
         if (strcmp(theFileName, "stdout") == 0)
             outfile = stdout;
@@ -925,14 +926,17 @@ int gp_DrawPlanar_RenderToFile(graphP theEmbedding, char *theFileName)
             fprintf(outfile, "%s", theRendition);
             free(theRendition);
         }
+        else
+            RetVal = NOTOK;
 
-        if (strcmp(theFileName, "stdout") == 0 || strcmp(theFileName, "stderr") == 0)
-            fflush(outfile);
+        // Any failed write is reported by the stream
+        if (fflush(outfile) != 0 || ferror(outfile))
+            RetVal = NOTOK;
 
-        else if (fclose(outfile) != 0)
-            return NOTOK;
+        if (outfile != stdout && outfile != stderr && fclose(outfile) != 0)
+            RetVal = NOTOK;
 
-        return theRendition ? OK : NOTOK;
+        return RetVal;
     }
 
     return NOTOK;
-- 
2.43.0


From ff6174c61c71fff75371f1a24cc940f635a513ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:29 +0000
Subject: [PATCH 40/79] fix: reading a drawing checks the data and assigns edge
 positions to the right edges

---
 .../graphDrawPlanar_Extensions.c              | 80 ++++++++++++++++---
 1 file changed, 68 insertions(+), 12 deletions(-)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index 4be5724..2482bf7 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -589,41 +589,97 @@ int  _DrawPlanar_ReadPostprocess(graphP theGraph, void *extraData, long extraDat
 
         else if (extraData != NULL && extraDataSize > 0)
         {
-            int v, e, tempInt, EsizeOccupied;
+            int v, u, e, tempInt, pos, start, end, EsizeOccupied;
             char line[64], tempChar;
+            char *drawingData = (char *) extraData;
+            int *vertexAtPos = NULL;
+
+            // There is no drawing if there is only white space after the graph
+            if (drawingData[strspn(drawingData, " \t\r\n")] == '\0')
+                return OK;
 
             sprintf(line, "<%s>", DRAWPLANAR_NAME);
 
             // Find the start of the data for this feature
-            extraData = strstr(extraData, line);
-            if (extraData == NULL)
+            drawingData = strstr(drawingData, line);
+            if (drawingData == NULL)
                 return NOTOK;
 
             // Advance past the start tag
-            extraData = (void *) ((char *) extraData + strlen(line)+1);
+            drawingData = strchr(drawingData, '\n');
+            if (drawingData == NULL)
+                return NOTOK;
+            drawingData++;
 
             // Read the N lines of vertex information
             for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
             {
-                sscanf(extraData, " %d%c %d %d %d", &tempInt, &tempChar,
+                if (sscanf(drawingData, " %d%c %d %d %d", &tempInt, &tempChar,
                               &context->VI[v].pos,
                               &context->VI[v].start,
-                              &context->VI[v].end);
+                              &context->VI[v].end) != 5)
+                    return NOTOK;
+
+                drawingData = strchr(drawingData, '\n');
+                if (drawingData == NULL)
+                    return NOTOK;
+                drawingData++;
+            }
 
-                extraData = strchr(extraData, '\n') + 1;
+            // The edges may be located differently in this graph than in the graph
+            // that was written, so they are identified by the vertical positions
+            // of their endpoint vertices, which are unique in a drawing.
+            vertexAtPos = (int *) malloc((theGraph->N + 1) * sizeof(int));
+            if (vertexAtPos == NULL)
+                return NOTOK;
+
+            for (pos = 0; pos <= theGraph->N; pos++)
+                vertexAtPos[pos] = NIL;
+            for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+            {
+                if (context->VI[v].pos >= 0 && context->VI[v].pos < theGraph->N)
+                    vertexAtPos[context->VI[v].pos] = v;
             }
 
             // Read the lines that contain edge information
             EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
             for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e++)
             {
-                sscanf(extraData, " %d%c %d %d %d", &tempInt, &tempChar,
-                              &context->E[e].pos,
-                              &context->E[e].start,
-                              &context->E[e].end);
+                int edgeFound;
 
-                extraData = strchr(extraData, '\n') + 1;
+                if (sscanf(drawingData, " %d%c %d %d %d", &tempInt, &tempChar,
+                              &pos, &start, &end) != 5 ||
+                    (drawingData = strchr(drawingData, '\n')) == NULL)
+                {
+                    free(vertexAtPos);
+                    return NOTOK;
+                }
+                drawingData++;
+
+                u = start >= 0 && start < theGraph->N ? vertexAtPos[start] : NIL;
+                v = end >= 0 && end < theGraph->N ? vertexAtPos[end] : NIL;
+                if (gp_IsVertex(u) && gp_IsVertex(v) && u != v)
+                {
+                    edgeFound = gp_GetNeighborEdgeRecord(theGraph, u, v);
+                    if (gp_IsArc(edgeFound))
+                    {
+                        context->E[edgeFound].pos = pos;
+                        context->E[edgeFound].start = start;
+                        context->E[edgeFound].end = end;
+                        edgeFound = gp_GetTwinArc(theGraph, edgeFound);
+                        context->E[edgeFound].pos = pos;
+                        context->E[edgeFound].start = start;
+                        context->E[edgeFound].end = end;
+                    }
+                }
             }
+
+            free(vertexAtPos);
+
+            // The end tag shows that the information is complete
+            sprintf(line, "</%s>", DRAWPLANAR_NAME);
+            if (strstr(drawingData, line) == NULL)
+                return NOTOK;
         }
 
         return OK;
-- 
2.43.0


From 80fb948356b5d4c0b4de8fb34056cbe799531cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:07 +0000
Subject: [PATCH 41/79] fix: _ReadAdjList() rejects vertex numbers that are too
 large before adjusting them

---
 c/graphLib/io/graphIO.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 1b2fa5c..0d795cd 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -171,6 +171,8 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
 
         if (indexValue == 0 && v == gp_GetFirstVertex(theGraph))
             zeroBased = TRUE;
+        if (indexValue > gp_GetLastVertex(theGraph))
+            return NOTOK;
         indexValue += zeroBased ? gp_GetFirstVertex(theGraph) : 0;
 
         gp_SetVertexIndex(theGraph, v, indexValue);
@@ -242,6 +244,9 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
                 sb_ReadSkipInteger(inBuf);
                 sb_ReadSkipWhitespace(inBuf);
             }
+            // A value this large cannot be a vertex (and must not be adjusted)
+            if (W > gp_GetLastVertex(theGraph))
+                return NOTOK;
             W += zeroBased ? gp_GetFirstVertex(theGraph) : 0;
 
             // A value below the valid range indicates the adjacency list end
-- 
2.43.0


From ab273d09fc0c30b62c3bc79b2a81041e73100c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:07 +0000
Subject: [PATCH 42/79] fix: gp_InitGraph() rejects graph sizes that overflow
 the sizes of its arrays

---
 c/graphLib/graphUtils.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 5373690..2301c72 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -4,6 +4,7 @@ All rights reserved.
 See the LICENSE.TXT file for licensing information.
 */
 
+#include <limits.h>
 #include <stdlib.h>
 
 #include "graphStructures.h"
@@ -197,6 +198,10 @@ int gp_InitGraph(graphP theGraph, int N)
     if (theGraph->N)
         return NOTOK;
 
+    // The sizes of the graph's arrays and stacks must be representable
+    if (N > INT_MAX / (4 * DEFAULT_EDGE_LIMIT) - 1 || theGraph->arcCapacity > INT_MAX / 2 - 2)
+        return NOTOK;
+
     return theGraph->functions.fpInitGraph(theGraph, N);
 }
 
-- 
2.43.0


From b26311d6ba65b016dbcdb0d536c9bc3a8b58a364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:35 +0000
Subject: [PATCH 43/79] fix: beginning a G6 read iteration fails if the first
 graph character cannot be read

---
 c/graphLib/io/g6-read-iterator.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 0988f04..e72ca2d 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -229,6 +229,12 @@ int _beginG6ReadIteration(G6ReadIterator *pG6ReadIterator)
 
 	int lineNum = 1;
 	firstChar = sf_getc(g6Input);
+	if (firstChar == EOF)
+	{
+		ErrorMessage("Unable to read the first graph of the .g6 infile.\n");
+		return NOTOK;
+	}
+
 	charConfirmation = sf_ungetc(firstChar, g6Input);
 
 	if (charConfirmation != firstChar)
-- 
2.43.0


From 0b6dc58723e9892fd2ef3e6e3f0a650d7bdc001f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:12 +0000
Subject: [PATCH 44/79] fix: G6 encoding sizes of large graph orders no longer
 overflow

---
 c/graphLib/io/g6-api-utilities.c  | 12 ++++++------
 c/graphLib/io/g6-api-utilities.h  |  2 +-
 c/graphLib/io/g6-write-iterator.c | 10 +++++-----
 c/graphLib/io/g6-write-iterator.h |  4 ++--
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/c/graphLib/io/g6-api-utilities.c b/c/graphLib/io/g6-api-utilities.c
index 99d6c3e..1cf73cc 100644
--- a/c/graphLib/io/g6-api-utilities.c
+++ b/c/graphLib/io/g6-api-utilities.c
@@ -6,16 +6,16 @@ See the LICENSE.TXT file for licensing information.
 
 #include "g6-api-utilities.h"
 
-int _getMaxEdgeCount(int graphOrder)
+long long _getMaxEdgeCount(int graphOrder)
 {
-	return (graphOrder * (graphOrder - 1)) / 2;
+	return ((long long) graphOrder * (graphOrder - 1)) / 2;
 }
 
 int _getNumCharsForGraphEncoding(int graphOrder)
 {
-	int maxNumEdges = _getMaxEdgeCount(graphOrder);
+	long long maxNumEdges = _getMaxEdgeCount(graphOrder);
 
-	return (maxNumEdges / 6) + (maxNumEdges % 6 ? 1 : 0);
+	return (int) ((maxNumEdges / 6) + (maxNumEdges % 6 ? 1 : 0));
 }
 
 int _getNumCharsForGraphOrder(int graphOrder)
@@ -31,8 +31,8 @@ int _getNumCharsForGraphOrder(int graphOrder)
 
 int _getExpectedNumPaddingZeroes(const int graphOrder, const int numChars)
 {
-	int maxNumEdges = _getMaxEdgeCount(graphOrder);
-	int expectedNumPaddingZeroes = numChars * 6 - maxNumEdges;
+	long long maxNumEdges = _getMaxEdgeCount(graphOrder);
+	int expectedNumPaddingZeroes = (int) (numChars * 6LL - maxNumEdges);
 
 	return expectedNumPaddingZeroes;
 }
diff --git a/c/graphLib/io/g6-api-utilities.h b/c/graphLib/io/g6-api-utilities.h
index ae6de29..78c2d89 100644
--- a/c/graphLib/io/g6-api-utilities.h
+++ b/c/graphLib/io/g6-api-utilities.h
@@ -11,7 +11,7 @@ See the LICENSE.TXT file for licensing information.
 extern "C" {
 #endif
 
-int _getMaxEdgeCount(int);
+long long _getMaxEdgeCount(int);
 int _getNumCharsForGraphEncoding(int);
 int _getNumCharsForGraphOrder(int);
 int _getExpectedNumPaddingZeroes(const int, const int);
diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index bad3ff0..5f23f11 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -236,7 +236,7 @@ int _beginG6WriteIteration(G6WriteIterator *pG6WriteIterator)
 
 	pG6WriteIterator->graphOrder = pG6WriteIterator->currGraph->N;
 
-	pG6WriteIterator->columnOffsets = (int *) calloc(pG6WriteIterator->graphOrder + 1, sizeof(int));
+	pG6WriteIterator->columnOffsets = (long long *) calloc(pG6WriteIterator->graphOrder + 1, sizeof(long long));
 
 	if ( pG6WriteIterator->columnOffsets == NULL)
 	{
@@ -261,7 +261,7 @@ int _beginG6WriteIteration(G6WriteIterator *pG6WriteIterator)
 	return exitCode;
 }
 
-void _precomputeColumnOffsets(int *columnOffsets, int graphOrder)
+void _precomputeColumnOffsets(long long *columnOffsets, int graphOrder)
 {
 	if (columnOffsets == NULL)
 	{
@@ -317,7 +317,7 @@ int _encodeAdjMatAsG6(G6WriteIterator *pG6WriteIterator) {
 		return NOTOK;
 	}
 
-	int *columnOffsets = pG6WriteIterator->columnOffsets;
+	long long *columnOffsets = pG6WriteIterator->columnOffsets;
 	if (columnOffsets == NULL)
 	{
 		ErrorMessage("Column offsets array is not allocated.\n");
@@ -390,8 +390,8 @@ int _encodeAdjMatAsG6(G6WriteIterator *pG6WriteIterator) {
 		// bit to set in that byte by left-shifting 1 by (5 - ((columnOffsets[v] + u) % 6))
 		// (transforming the ((columnOffsets[v] + u) % 6)th bit from the left to the
 		// (5 - ((columnOffsets[v] + u) % 6))th bit from the right)
-		charOffset = numCharsForGraphOrder + ((columnOffsets[v] + u) / 6);
-		bitPositionPower = 5 - ((columnOffsets[v] + u) % 6);
+		charOffset = numCharsForGraphOrder + (int) ((columnOffsets[v] + u) / 6);
+		bitPositionPower = 5 - (int) ((columnOffsets[v] + u) % 6);
 
 		g6Encoding[charOffset] |= (1u << bitPositionPower);
 
diff --git a/c/graphLib/io/g6-write-iterator.h b/c/graphLib/io/g6-write-iterator.h
index b3314aa..6b88b0c 100644
--- a/c/graphLib/io/g6-write-iterator.h
+++ b/c/graphLib/io/g6-write-iterator.h
@@ -29,7 +29,7 @@ extern "C"
 		int currGraphBuffSize;
 		char *currGraphBuff;
 
-		int *columnOffsets;
+		long long *columnOffsets;
 
 		graphP currGraph;
 	} G6WriteIterator;
@@ -45,7 +45,7 @@ extern "C"
 	int beginG6WriteIterationToG6FilePointer(G6WriteIterator *pG6WriteIterator, FILE *g6Outfile);
 	int beginG6WriteIterationToG6String(G6WriteIterator *pG6WriteIterator, char **g6OutputStr);
 	int _beginG6WriteIteration(G6WriteIterator *pG6WriteIterator);
-	void _precomputeColumnOffsets(int *, int);
+	void _precomputeColumnOffsets(long long *, int);
 
 	int writeGraphUsingG6WriteIterator(G6WriteIterator *);
 
-- 
2.43.0


From 02564b21a7df230975b2f4c692141bb2659cd3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:32 +0000
Subject: [PATCH 45/79] fix: gp_DynamicAddEdge() computes the maximum arc
 capacity of large graphs without overflow

---
 c/graphLib/graphUtils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 2301c72..2bc4b25 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1693,8 +1693,8 @@ int gp_DynamicAddEdge(graphP theGraph, int u, int ulink, int v, int vlink)
     if (Result == NONEMBEDDABLE)
     {
         int candidateArcCapacity = gp_GetArcCapacity(theGraph) * 2;
-        int N = theGraph->N;
-        int newArcCapacity = (candidateArcCapacity > (N * (N - 1))) ? (N * (N - 1)) : candidateArcCapacity;
+        long long maxArcCapacity = (long long)theGraph->N * (theGraph->N - 1);
+        int newArcCapacity = (candidateArcCapacity > maxArcCapacity) ? (int)maxArcCapacity : candidateArcCapacity;
         Result = gp_EnsureArcCapacity(theGraph, newArcCapacity);
 
         if (Result != OK)
-- 
2.43.0


From e4d482aaa63b0c18368fcc10cc1250c1575f8112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:05 +0000
Subject: [PATCH 46/79] fix: gp_CreateRandomGraph() no longer overflows the
 number of vertex pairs of large graphs

---
 c/graphLib/graphUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 2bc4b25..eb0da1f 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1113,7 +1113,7 @@ int gp_CreateRandomGraph(graphP theGraph)
 
     M = _GetRandomNumber(7 * N / 8, theGraph->arcCapacity / 2);
 
-    if (M > N * (N - 1) / 2)
+    if (M > (long long)N * (N - 1) / 2)
         M = N * (N - 1) / 2;
 
     for (m = N - 1; m < M; m++)
-- 
2.43.0


From 10e6ae718c76412a397793a1b59569c8e1d27298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:05 +0000
Subject: [PATCH 47/79] fix: _GetRandomNumber() no longer overflows a signed
 integer for large random numbers

---
 c/graphLib/graphUtils.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index eb0da1f..4fb278c 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1148,7 +1148,7 @@ int gp_CreateRandomGraph(graphP theGraph)
 
 int _GetRandomNumber(int NMin, int NMax)
 {
-    int N = rand();
+    unsigned int N = (unsigned int)rand();
 
     if (NMax < NMin)
         return NMin;
@@ -1156,8 +1156,8 @@ int _GetRandomNumber(int NMin, int NMax)
     N += ((N & 0xFFFF0000) >> 16);
     N += ((N & 0x0000FF00) >> 8);
     N &= 0x7FFFFFF;
-    N %= (NMax - NMin + 1);
-    return N + NMin;
+    N %= (unsigned int)(NMax - NMin + 1);
+    return (int)N + NMin;
 }
 
 /********************************************************************
-- 
2.43.0


From e5725b2412c05968bf55bc2a927d9950e2ae78e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:05 +0000
Subject: [PATCH 48/79] fix: gp_CreateRandomGraphEx() ends when more edges are
 requested than a simple graph can have

---
 c/graphLib/graphUtils.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 4fb278c..3fd06e7 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1252,6 +1252,10 @@ int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
     if (numEdges > theGraph->arcCapacity / 2)
         numEdges = theGraph->arcCapacity / 2;
 
+    // A simple graph has at most one edge per pair of vertices
+    if (numEdges > (long long)N * (N - 1) / 2)
+        numEdges = N * (N - 1) / 2;
+
     /* Generate a random tree. */
 
     for (v = gp_GetFirstVertex(theGraph) + 1; gp_VertexInRange(theGraph, v); v++)
-- 
2.43.0


From d8a866b0677e0844b3206aef8e8ed984b88671ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:28 +0000
Subject: [PATCH 49/79] fix: gp_CreateRandomGraphEx() does not add more edges
 than requested

---
 c/graphLib/graphUtils.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 3fd06e7..40d95da 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1289,11 +1289,11 @@ int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
         {
             if (last != v)
             {
-                if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
+                if (theGraph->M < M && gp_AddEdge(theGraph, last, 1, c, 1) != OK)
                     return NOTOK;
             }
 
-            if (gp_AddEdge(theGraph, root, 1, c, 1) != OK)
+            if (theGraph->M < M && gp_AddEdge(theGraph, root, 1, c, 1) != OK)
                 return NOTOK;
 
             v = last = c;
@@ -1308,7 +1308,7 @@ int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
                 p = gp_GetVertexParent(theGraph, v);
                 if (gp_IsVertex(p) && p != root)
                 {
-                    if (gp_AddEdge(theGraph, last, 1, p, 1) != OK)
+                    if (theGraph->M < M && gp_AddEdge(theGraph, last, 1, p, 1) != OK)
                         return NOTOK;
                 }
             }
@@ -1317,24 +1317,24 @@ int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
             {
                 if (p == root)
                 {
-                    if (gp_AddEdge(theGraph, v, 1, c, 1) != OK)
+                    if (theGraph->M < M && gp_AddEdge(theGraph, v, 1, c, 1) != OK)
                         return NOTOK;
 
                     if (v != last)
                     {
-                        if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
+                        if (theGraph->M < M && gp_AddEdge(theGraph, last, 1, c, 1) != OK)
                             return NOTOK;
                     }
                 }
                 else
                 {
-                    if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
+                    if (theGraph->M < M && gp_AddEdge(theGraph, last, 1, c, 1) != OK)
                         return NOTOK;
                 }
 
                 if (p != root)
                 {
-                    if (gp_AddEdge(theGraph, root, 1, c, 1) != OK)
+                    if (theGraph->M < M && gp_AddEdge(theGraph, root, 1, c, 1) != OK)
                         return NOTOK;
                     last = c;
                 }
-- 
2.43.0


From 6fa569e6f2a14dca3281430bc0fdc9b58d650122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:07 +0000
Subject: [PATCH 50/79] fix: the first attachments of an extension to different
 graphs no longer race for its identifier

---
 c/graphLib/extensionSystem/graphExtensions.c             | 7 ++++++-
 c/graphLib/homeomorphSearch/graphK23Search_Extensions.c  | 2 +-
 c/graphLib/homeomorphSearch/graphK33Search_Extensions.c  | 2 +-
 c/graphLib/homeomorphSearch/graphK4Search_Extensions.c   | 2 +-
 c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c | 2 +-
 5 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/c/graphLib/extensionSystem/graphExtensions.c b/c/graphLib/extensionSystem/graphExtensions.c
index df9b484..b360bba 100644
--- a/c/graphLib/extensionSystem/graphExtensions.c
+++ b/c/graphLib/extensionSystem/graphExtensions.c
@@ -31,9 +31,14 @@ graphExtensionP _FindNearestOverload(graphP theGraph, graphExtensionP target, in
  * graphs.  It is used in lieu of identifying extensions by a string
  * name, which is noticeably expensive when a frequently called
  * overload function seeks the extension context for a graph.
+ *
+ * The extensions of this library have the constant IDs 1 to 4, so that
+ * attaching one does not change any state shared by different graphs,
+ * such as graphs being used by different threads.  IDs are generated
+ * from 5 for extensions that have not yet been given an ID.
  ********************************************************************/
 
-static int moduleIDGenerator = 0;
+static int moduleIDGenerator = 4;
 
 /********************************************************************
  The extension mechanism allows new modules to equip a graph with the
diff --git a/c/graphLib/homeomorphSearch/graphK23Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK23Search_Extensions.c
index 360348f..627827d 100644
--- a/c/graphLib/homeomorphSearch/graphK23Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK23Search_Extensions.c
@@ -34,7 +34,7 @@ void _K23Search_FreeContext(void *);
  * from other features' extension contexts that may be attached to a graph.
  ****************************************************************************/
 
-int K23SEARCH_ID = 0;
+int K23SEARCH_ID = 1;
 
 /****************************************************************************
  gp_AttachK23Search()
diff --git a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
index 99dbf7f..57d2bc3 100644
--- a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
@@ -57,7 +57,7 @@ void _K33Search_FreeContext(void *);
  * from other features' extension contexts that may be attached to a graph.
  ****************************************************************************/
 
-int K33SEARCH_ID = 0;
+int K33SEARCH_ID = 2;
 
 /****************************************************************************
  gp_AttachK33Search()
diff --git a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
index b525c09..8a5c07c 100644
--- a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
@@ -50,7 +50,7 @@ void _K4Search_FreeContext(void *);
  * from other features' extension contexts that may be attached to a graph.
  ****************************************************************************/
 
-int K4SEARCH_ID = 0;
+int K4SEARCH_ID = 3;
 
 /****************************************************************************
  gp_AttachK4Search()
diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index 2482bf7..f77a5be 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -55,7 +55,7 @@ void _DrawPlanar_FreeContext(void *);
  * from other features' extension contexts that may be attached to a graph.
  ****************************************************************************/
 
-int DRAWPLANAR_ID = 0;
+int DRAWPLANAR_ID = 4;
 
 /****************************************************************************
  gp_AttachDrawPlanar()
-- 
2.43.0


From 519dce55d05d26721f667e1e644b6443dd44f728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:09 +0000
Subject: [PATCH 51/79] fix: missing command-line arguments are an error, not a
 found obstruction

---
 c/planarityApp/planarityCommandLine.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/c/planarityApp/planarityCommandLine.c b/c/planarityApp/planarityCommandLine.c
index 813d1e3..8551ebb 100644
--- a/c/planarityApp/planarityCommandLine.c
+++ b/c/planarityApp/planarityCommandLine.c
@@ -605,13 +605,13 @@ int callRandomGraphs(int argc, char *argv[])
 	int offset = 0, NumGraphs, SizeOfGraphs;
 
 	if (argc < 5)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && (Choice = argv[2][1]) == 'q')
 	{
 		Choice = argv[3][1];
 		if (argc < 6)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
@@ -632,13 +632,13 @@ int callSpecificGraph(int argc, char *argv[])
 	int offset = 0;
 
 	if (argc < 5)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && (Choice = argv[2][1]) == 'q')
 	{
 		Choice = argv[3][1];
 		if (argc < 6)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
@@ -661,12 +661,12 @@ int callRandomMaxPlanarGraph(int argc, char *argv[])
 	char *outfileName = NULL, *outfile2Name = NULL;
 
 	if (argc < 4)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && argv[2][1] == 'q')
 	{
 		if (argc < 5)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
@@ -689,12 +689,12 @@ int callRandomNonplanarGraph(int argc, char *argv[])
 	char *outfileName = NULL, *outfile2Name = NULL;
 
 	if (argc < 4)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && argv[2][1] == 'q')
 	{
 		if (argc < 5)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
@@ -720,12 +720,12 @@ int callTransformGraph(int argc, char *argv[])
 	char *infileName = NULL, *outfileName = NULL;
 
 	if (argc < 5)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && argv[2][1] == 'q')
 	{
 		if (argc < 6)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
@@ -756,12 +756,12 @@ int callTestAllGraphs(int argc, char *argv[])
 	char *infileName = NULL, *outfileName = NULL;
 
 	if (argc < 5)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && argv[2][1] == 'q')
 	{
 		if (argc < 6)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
-- 
2.43.0


From 959ea4685a768655279fe4bdb651b81a1a88374e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:09 +0000
Subject: [PATCH 52/79] fix: a failed run is not announced as a verdict about
 the graph

---
 c/planarityApp/planaritySpecificGraph.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/planarityApp/planaritySpecificGraph.c b/c/planarityApp/planaritySpecificGraph.c
index 64f7279..c913ae4 100644
--- a/c/planarityApp/planaritySpecificGraph.c
+++ b/c/planarityApp/planaritySpecificGraph.c
@@ -218,7 +218,9 @@ void WriteAlgorithmResults(graphP theGraph, int Result, char command, platform_t
 	else sprintf(messageContents, "The graph ");
 	Message(messageContents);
 
-	switch (command)
+	if (Result != OK && Result != NONEMBEDDABLE)
+		sprintf(messageContents, "has not been processed due to an error.\n");
+	else switch (command)
 	{
 		case 'p' : sprintf(messageContents, "is%s planar.\n", Result==OK ? "" : " not"); break;
 		case 'd' : sprintf(messageContents, "is%s planar.\n", Result==OK ? "" : " not"); break;
-- 
2.43.0


From 2eb0869ea9ef874248173cf7a17967d7d6674d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:09 +0000
Subject: [PATCH 53/79] fix: SpecificGraph() checks for failures to create,
 copy and extend the graph

---
 c/planarityApp/planaritySpecificGraph.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/c/planarityApp/planaritySpecificGraph.c b/c/planarityApp/planaritySpecificGraph.c
index c913ae4..1103086 100644
--- a/c/planarityApp/planaritySpecificGraph.c
+++ b/c/planarityApp/planaritySpecificGraph.c
@@ -36,7 +36,7 @@ int SpecificGraph(
 		char *inputStr, char **pOutputStr, char **pOutput2Str
 )
 {
-graphP theGraph, origGraph;
+graphP theGraph = NULL, origGraph = NULL;
 platform_time start, end;
 int Result = OK;
 
@@ -49,6 +49,11 @@ int Result = OK;
 
     // Create the graph and, if needed, attach the correct algorithm to it
     theGraph = gp_New();
+	if (theGraph == NULL)
+	{
+		ErrorMessage("Unable to allocate the graph.\n");
+		return NOTOK;
+	}
 
     // Read the graph into memory
 	if (inputStr == NULL)
@@ -74,12 +79,14 @@ int Result = OK;
         // Run the algorithm
         if (strchr(GetAlgorithmChoices(), command))
         {
+			int attachResult = OK;
+
 			switch (command)
 			{
-				case 'd' : gp_AttachDrawPlanar(theGraph); break;
-				case '2' : gp_AttachK23Search(theGraph); break;
-				case '3' : gp_AttachK33Search(theGraph); break;
-				case '4' : gp_AttachK4Search(theGraph); break;
+				case 'd' : attachResult = gp_AttachDrawPlanar(theGraph); break;
+				case '2' : attachResult = gp_AttachK23Search(theGraph); break;
+				case '3' : attachResult = gp_AttachK33Search(theGraph); break;
+				case '4' : attachResult = gp_AttachK4Search(theGraph); break;
 			}
 
     		int embedFlags = GetEmbedFlags(command);
@@ -90,9 +97,12 @@ int Result = OK;
 //			gp_Write(theGraph, "debug.before.txt", WRITE_DEBUGINFO);
 //	        gp_SortVertices(theGraph);
 
-			Result = gp_Embed(theGraph, embedFlags);
+			Result = NOTOK;
+			if (origGraph != NULL && attachResult == OK)
+				Result = gp_Embed(theGraph, embedFlags);
 	        platform_GetTime(end);
-	        Result = gp_TestEmbedResultIntegrity(theGraph, origGraph, Result);
+			if (Result == OK || Result == NONEMBEDDABLE)
+		        Result = gp_TestEmbedResultIntegrity(theGraph, origGraph, Result);
         }
         else
         {
-- 
2.43.0


From 593a92f60fae34b0bb2ce273b53aa015e92bc0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:22 +0000
Subject: [PATCH 54/79] fix: commands that name no algorithm are rejected in
 every mode

---
 c/planarityApp/planarityRandomGraphs.c  | 8 +++++++-
 c/planarityApp/planaritySpecificGraph.c | 2 +-
 c/planarityApp/planarityTestAllGraphs.c | 2 +-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/c/planarityApp/planarityRandomGraphs.c b/c/planarityApp/planarityRandomGraphs.c
index ae028f1..9ed2694 100644
--- a/c/planarityApp/planarityRandomGraphs.c
+++ b/c/planarityApp/planarityRandomGraphs.c
@@ -40,6 +40,12 @@ int writeErrorReported_Random=FALSE, writeErrorReported_Embedded=FALSE,
 	char messageContents[MAXLINE + 1];
 	int charsAvailForStr = 0;
 
+	if (command == '\0' || !strchr(GetAlgorithmChoices(), command))
+	{
+		ErrorMessage("Invalid argument; only -(pdo234) is allowed.\n");
+		return NOTOK;
+	}
+
 	GetNumberIfZero(&NumGraphs, "Enter number of graphs to generate:", 1, 1000000000);
 	GetNumberIfZero(&SizeOfGraphs, "Enter size of graphs:", 1, 10000);
 
@@ -405,7 +411,7 @@ char saveEdgeListFormat;
 	Message("Now processing\n");
 	FlushConsole(stdout);
 
-	if (strchr(GetAlgorithmChoices(), command))
+	if (command != '\0' && strchr(GetAlgorithmChoices(), command))
 	{
 		platform_GetTime(start);
 		Result = gp_Embed(theGraph, embedFlags);
diff --git a/c/planarityApp/planaritySpecificGraph.c b/c/planarityApp/planaritySpecificGraph.c
index 1103086..0e33f04 100644
--- a/c/planarityApp/planaritySpecificGraph.c
+++ b/c/planarityApp/planaritySpecificGraph.c
@@ -77,7 +77,7 @@ int Result = OK;
 		origGraph = gp_DupGraph(theGraph);
 
         // Run the algorithm
-        if (strchr(GetAlgorithmChoices(), command))
+        if (command != '\0' && strchr(GetAlgorithmChoices(), command))
         {
 			int attachResult = OK;
 
diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index 07b6361..9246292 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -59,7 +59,7 @@ int TestAllGraphs(char *commandString, char *infileName, char *outfileName, char
 
 	if (commandString[0] == '-')
 	{
-		if (strchr(GetAlgorithmChoices(), commandString[1]))
+		if (commandString[1] != '\0' && strchr(GetAlgorithmChoices(), commandString[1]))
 		{
 			if (infileName == NULL)
 			{
-- 
2.43.0


From e06a5c763afb5618c43b1be6d9039fe47888a56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:22 +0000
Subject: [PATCH 55/79] fix: the command argument after -q is only read if it
 exists

---
 c/planarityApp/planarityCommandLine.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/planarityApp/planarityCommandLine.c b/c/planarityApp/planarityCommandLine.c
index 8551ebb..a4fedf3 100644
--- a/c/planarityApp/planarityCommandLine.c
+++ b/c/planarityApp/planarityCommandLine.c
@@ -609,9 +609,9 @@ int callRandomGraphs(int argc, char *argv[])
 
 	if (argv[2][0] == '-' && (Choice = argv[2][1]) == 'q')
 	{
-		Choice = argv[3][1];
 		if (argc < 6)
 			return NOTOK;
+		Choice = argv[3][0] == '-' ? argv[3][1] : 0;
 		offset = 1;
 	}
 
@@ -636,9 +636,9 @@ int callSpecificGraph(int argc, char *argv[])
 
 	if (argv[2][0] == '-' && (Choice = argv[2][1]) == 'q')
 	{
-		Choice = argv[3][1];
 		if (argc < 6)
 			return NOTOK;
+		Choice = argv[3][0] == '-' ? argv[3][1] : 0;
 		offset = 1;
 	}
 
-- 
2.43.0


From b65a2e8a4599e3b3c894e84db1cfd6853607f075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:22 +0000
Subject: [PATCH 56/79] fix: random graph modes end when no number is provided
 at their prompts

---
 c/planarityApp/planarityRandomGraphs.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/c/planarityApp/planarityRandomGraphs.c b/c/planarityApp/planarityRandomGraphs.c
index 9ed2694..9449470 100644
--- a/c/planarityApp/planarityRandomGraphs.c
+++ b/c/planarityApp/planarityRandomGraphs.c
@@ -6,7 +6,7 @@ See the LICENSE.TXT file for licensing information.
 
 #include "planarity.h"
 
-void GetNumberIfZero(int *pNum, char *prompt, int min, int max);
+int GetNumberIfZero(int *pNum, char *prompt, int min, int max);
 void ReinitializeGraph(graphP *pGraph, int ReuseGraphs, char command);
 graphP MakeGraph(int Size, char command);
 
@@ -46,8 +46,9 @@ int writeErrorReported_Random=FALSE, writeErrorReported_Embedded=FALSE,
 		return NOTOK;
 	}
 
-	GetNumberIfZero(&NumGraphs, "Enter number of graphs to generate:", 1, 1000000000);
-	GetNumberIfZero(&SizeOfGraphs, "Enter size of graphs:", 1, 10000);
+	if (GetNumberIfZero(&NumGraphs, "Enter number of graphs to generate:", 1, 1000000000) != OK ||
+		GetNumberIfZero(&SizeOfGraphs, "Enter size of graphs:", 1, 10000) != OK)
+		return NOTOK;
 
 	theGraph = MakeGraph(SizeOfGraphs, command);
 	origGraph = MakeGraph(SizeOfGraphs, command);
@@ -291,15 +292,19 @@ int writeErrorReported_Random=FALSE, writeErrorReported_Embedded=FALSE,
  The prompt is displayed if the number must be obtained from the user.
  Whether the given number is used or obtained from the user, the function
  ensures it is in the range [min, max] and assigns the midpoint value if
- it is not.
+ it is not. Returns NOTOK if the user provides no number, and OK otherwise.
  ****************************************************************************/
 
-void GetNumberIfZero(int *pNum, char *prompt, int min, int max)
+int GetNumberIfZero(int *pNum, char *prompt, int min, int max)
 {
 	if (*pNum == 0)
 	{
 		Prompt(prompt);
-		scanf(" %d", pNum);
+		if (scanf(" %d", pNum) != 1)
+		{
+			ErrorMessage("No number was given.\n");
+			return NOTOK;
+		}
 	}
 
 	if (min < 1) min = 1;
@@ -312,6 +317,8 @@ void GetNumberIfZero(int *pNum, char *prompt, int min, int max)
 		sprintf(messageContents, "Number out of range [%d, %d]; changed to %d\n", min, max, *pNum);
 		ErrorMessage(messageContents);
 	}
+
+	return OK;
 }
 
 /****************************************************************************
@@ -380,7 +387,8 @@ char saveEdgeListFormat;
 	char messageContents[MAXLINE + 1];
 	int charsAvailForStr = 0;
 
-	GetNumberIfZero(&numVertices, "Enter number of vertices:", 1, 1000000);
+	if (GetNumberIfZero(&numVertices, "Enter number of vertices:", 1, 1000000) != OK)
+		return NOTOK;
 	if ((theGraph = MakeGraph(numVertices, command)) == NULL)
 		return NOTOK;
 
-- 
2.43.0


From 403ab5f62c3b97cd19b53d87f844aca012204727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:22 +0000
Subject: [PATCH 57/79] fix: the random graph mode checks for failures to
 extend and copy its graphs

---
 c/planarityApp/planarityRandomGraphs.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/c/planarityApp/planarityRandomGraphs.c b/c/planarityApp/planarityRandomGraphs.c
index 9449470..731b22f 100644
--- a/c/planarityApp/planarityRandomGraphs.c
+++ b/c/planarityApp/planarityRandomGraphs.c
@@ -55,6 +55,7 @@ int writeErrorReported_Random=FALSE, writeErrorReported_Embedded=FALSE,
 	if (theGraph == NULL || origGraph == NULL)
 	{
 		gp_Free(&theGraph);
+		gp_Free(&origGraph);
 		return NOTOK;
 	}
 
@@ -100,9 +101,9 @@ int writeErrorReported_Random=FALSE, writeErrorReported_Embedded=FALSE,
 				}
 			}
 
-			gp_CopyGraph(origGraph, theGraph);
+			Result = gp_CopyGraph(origGraph, theGraph);
 
-			if (strchr(GetAlgorithmChoices(), command))
+			if (Result == OK)
 			{
 				Result = gp_Embed(theGraph, embedFlags);
 
@@ -330,6 +331,8 @@ int GetNumberIfZero(int *pNum, char *prompt, int min, int max)
 graphP MakeGraph(int Size, char command)
 {
 	graphP theGraph;
+	int attachResult = OK;
+
 	if ((theGraph = gp_New()) == NULL || gp_InitGraph(theGraph, Size) != OK)
 	{
 		ErrorMessage("Error creating space for a graph of the given size.\n");
@@ -344,10 +347,16 @@ graphP MakeGraph(int Size, char command)
 
 	switch (command)
 	{
-		case 'd' : gp_AttachDrawPlanar(theGraph); break;
-		case '2' : gp_AttachK23Search(theGraph); break;
-		case '3' : gp_AttachK33Search(theGraph); break;
-		case '4' : gp_AttachK4Search(theGraph); break;
+		case 'd' : attachResult = gp_AttachDrawPlanar(theGraph); break;
+		case '2' : attachResult = gp_AttachK23Search(theGraph); break;
+		case '3' : attachResult = gp_AttachK33Search(theGraph); break;
+		case '4' : attachResult = gp_AttachK4Search(theGraph); break;
+	}
+
+	if (attachResult != OK)
+	{
+		ErrorMessage("Error attaching the algorithm to the graph.\n");
+		gp_Free(&theGraph);
 	}
 
 	return theGraph;
-- 
2.43.0


From 9ecf3f10d79ba27870b53de1f3452c3e0c6ef720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:22 +0000
Subject: [PATCH 58/79] fix: the random maximal planar and nonplanar modes
 report failures to write their output

---
 c/planarityApp/planarity.h             |  2 +-
 c/planarityApp/planarityRandomGraphs.c | 25 +++++++++++++++++++------
 c/planarityApp/planarityUtils.c        | 17 +++++++++++++----
 3 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/c/planarityApp/planarity.h b/c/planarityApp/planarity.h
index 1b22d13..325f716 100644
--- a/c/planarityApp/planarity.h
+++ b/c/planarityApp/planarity.h
@@ -50,7 +50,7 @@ extern "C"
     void FlushConsole(FILE *f);
     void Prompt(char *message);
 
-    void SaveAsciiGraph(graphP theGraph, char *filename);
+    int SaveAsciiGraph(graphP theGraph, char *filename);
 
     char *ReadTextFileIntoString(char *infileName);
     int TextFileMatchesString(char *theFilename, char *theString);
diff --git a/c/planarityApp/planarityRandomGraphs.c b/c/planarityApp/planarityRandomGraphs.c
index 731b22f..d5e2b54 100644
--- a/c/planarityApp/planarityRandomGraphs.c
+++ b/c/planarityApp/planarityRandomGraphs.c
@@ -386,9 +386,9 @@ void ReinitializeGraph(graphP *pGraph, int ReuseGraphs, char command)
 
 int RandomGraph(char command, int extraEdges, int numVertices, char *outfileName, char *outfile2Name)
 {
-int  Result;
+int  Result, writeResult = OK;
 platform_time start, end;
-graphP theGraph=NULL, origGraph;
+graphP theGraph=NULL, origGraph=NULL;
 int embedFlags = GetEmbedFlags(command);
 char saveEdgeListFormat;
 
@@ -408,6 +408,7 @@ char saveEdgeListFormat;
 	if (gp_CreateRandomGraphEx(theGraph, 3*numVertices-6+extraEdges) != OK)
 	{
 		ErrorMessage("gp_CreateRandomGraphEx() failed\n");
+		gp_Free(&theGraph);
 		return NOTOK;
 	}
 	platform_GetTime(end);
@@ -419,7 +420,8 @@ char saveEdgeListFormat;
 	// The user may have requested a copy of the random graph before processing
 	if (outfile2Name != NULL)
 	{
-		gp_Write(theGraph, outfile2Name, WRITE_ADJLIST);
+		if (gp_Write(theGraph, outfile2Name, WRITE_ADJLIST) != OK)
+			writeResult = NOTOK;
 	}
 
 	origGraph = gp_DupGraph(theGraph);
@@ -450,7 +452,10 @@ char saveEdgeListFormat;
 	if (Result == OK || Result == NONEMBEDDABLE)
 	{
 		if (outfileName != NULL)
-			gp_Write(theGraph, outfileName, WRITE_ADJLIST);
+		{
+			if (gp_Write(theGraph, outfileName, WRITE_ADJLIST) != OK)
+				writeResult = NOTOK;
+		}
 
 		if (!getQuietModeSetting())
 		{
@@ -474,18 +479,26 @@ char saveEdgeListFormat;
 			charsAvailForStr = (int) (MAXLINE - strlen(messageFormat));
 			sprintf(messageContents, messageFormat, charsAvailForStr, theFileName);
 			Message(messageContents);
-			SaveAsciiGraph(origGraph, theFileName);
+			if (SaveAsciiGraph(origGraph, theFileName) != OK)
+				writeResult = NOTOK;
 
 			strcat(theFileName, ".out.txt");
 			messageFormat =  "Saving edge list format of result to \"%.*s\"\n";
 			charsAvailForStr = (int) (MAXLINE - strlen(messageFormat));
 			sprintf(messageContents, messageFormat, charsAvailForStr, theFileName);
 			Message(messageContents);
-			SaveAsciiGraph(theGraph, theFileName);
+			if (SaveAsciiGraph(theGraph, theFileName) != OK)
+				writeResult = NOTOK;
 		}
 	}
 	else ErrorMessage("Failure occurred");
 
+	if (writeResult != OK)
+	{
+		ErrorMessage("Unable to write all of the output.\n");
+		Result = NOTOK;
+	}
+
 	gp_Free(&theGraph);
 	gp_Free(&origGraph);
 
diff --git a/c/planarityApp/planarityUtils.c b/c/planarityApp/planarityUtils.c
index 308f96f..60bccc7 100644
--- a/c/planarityApp/planarityUtils.c
+++ b/c/planarityApp/planarityUtils.c
@@ -65,9 +65,9 @@ void Prompt(char *message)
 /****************************************************************************
  ****************************************************************************/
 
-void SaveAsciiGraph(graphP theGraph, char *filename)
+int SaveAsciiGraph(graphP theGraph, char *filename)
 {
-	int e, EsizeOccupied, vertexLabelFix;
+	int e, EsizeOccupied, vertexLabelFix, Result = OK;
 	FILE *outfile = fopen(filename, WRITETEXT);
 
 	// The filename may specify a directory that doesn't exist
@@ -78,7 +78,7 @@ void SaveAsciiGraph(graphP theGraph, char *filename)
 		int charsAvailForStrToInclude = (int)(MAXLINE - strlen(messageFormat));
 		sprintf(messageContents, messageFormat, charsAvailForStrToInclude, filename);
 		ErrorMessage(messageContents);
-		return;
+		return NOTOK;
 	}
 
 	// If filename includes path elements, remove them before writing the file's name to the file
@@ -109,7 +109,16 @@ void SaveAsciiGraph(graphP theGraph, char *filename)
 	// Since vertex numbers are at least 1, this indicates the end of the edge list
 	fprintf(outfile, "0 0\n");
 
-	fclose(outfile);
+	if (ferror(outfile))
+		Result = NOTOK;
+
+	if (fclose(outfile) != 0)
+		Result = NOTOK;
+
+	if (Result != OK)
+		ErrorMessage("Failed to write the edge list\n");
+
+	return Result;
 }
 
 /****************************************************************************
-- 
2.43.0


From fa75102ca5db830a946bc759d0e71d4fe6f68eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:22 +0000
Subject: [PATCH 59/79] fix: the edge list question is answered with no if the
 input has ended

---
 c/planarityApp/planarityRandomGraphs.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/planarityApp/planarityRandomGraphs.c b/c/planarityApp/planarityRandomGraphs.c
index d5e2b54..6ae8944 100644
--- a/c/planarityApp/planarityRandomGraphs.c
+++ b/c/planarityApp/planarityRandomGraphs.c
@@ -461,7 +461,8 @@ char saveEdgeListFormat;
 		{
 			Prompt("Do you want to save the generated graph in edge list format (y/n)? ");
 			fflush(stdin);
-			scanf(" %c", &saveEdgeListFormat);
+			if (scanf(" %c", &saveEdgeListFormat) != 1)
+				saveEdgeListFormat = 'n';
 		}
 		else
 			saveEdgeListFormat = 'n';
-- 
2.43.0


From 23d67115773f89430b9d601c3f35dd9c4d1100c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:22 +0000
Subject: [PATCH 60/79] fix: TransformGraph() checks for failure to create its
 graph and always frees it

---
 c/planarityApp/planarityTransformGraph.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c/planarityApp/planarityTransformGraph.c b/c/planarityApp/planarityTransformGraph.c
index 24923f9..d077d7f 100644
--- a/c/planarityApp/planarityTransformGraph.c
+++ b/c/planarityApp/planarityTransformGraph.c
@@ -28,6 +28,11 @@ int TransformGraph(char *commandString, char *infileName, char *inputStr, int *o
 	graphP theGraph;
 
 	theGraph = gp_New();
+	if (theGraph == NULL)
+	{
+		ErrorMessage("Unable to allocate the graph.\n");
+		return NOTOK;
+	}
 
 	int outputFormat = -1;
 
@@ -42,6 +47,7 @@ int TransformGraph(char *commandString, char *infileName, char *inputStr, int *o
 		else
 		{
 			ErrorMessage("Invalid argument; only -(gam) is allowed.\n");
+			gp_Free(&theGraph);
 			return NOTOK;
 		}
 
-- 
2.43.0


From 59dcd23cfebfd3b53cdf1e48d563e0751419efd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:48 +0000
Subject: [PATCH 61/79] fix: TestAllGraphs() bounds the file names in its error
 messages

---
 c/planarityApp/planarityTestAllGraphs.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index 9246292..692e367 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -79,8 +79,8 @@ int TestAllGraphs(char *commandString, char *infileName, char *outfileName, char
 				FILE *infile = fopen(infileName, "r");
 				if (infile == NULL)
 				{
-					charsAvailForFilename = (int)(MAXLINE - strlen(infileName));
 					messageFormat = "Unable to open file \"%.*s\" for input.\n";
+					charsAvailForFilename = (int)(MAXLINE - strlen(messageFormat));
 					sprintf(messageContents, messageFormat, charsAvailForFilename, infileName);
 					ErrorMessage(messageContents);
 
@@ -329,8 +329,8 @@ int outputTestAllGraphsResults(char command, testAllStatsP stats, char *infileNa
 		FILE *outputFileP = fopen(outfileName, "w");
 		if (outputFileP == NULL)
 		{
-			charsAvailForFilename = (int)(MAXLINE - strlen(outfileName));
 			messageFormat = "Unable to open file \"%.*s\" for output.\n";
+			charsAvailForFilename = (int)(MAXLINE - strlen(messageFormat));
 			sprintf(messageContents, messageFormat, charsAvailForFilename, outfileName);
 			ErrorMessage(messageContents);
 		}
@@ -421,9 +421,9 @@ int outputTestAllGraphsResults(char command, testAllStatsP stats, char *infileNa
 
 	if (sf_closeFile(testOutput) != OK)
 	{
-		charsAvailForFilename = (int)(MAXLINE - strlen(outfileName));
 		messageFormat = "Unable to close output file \"%.*s\".\n";
-		sprintf(messageContents, messageFormat, charsAvailForFilename, outfileName);
+		charsAvailForFilename = (int)(MAXLINE - strlen(messageFormat));
+		sprintf(messageContents, messageFormat, charsAvailForFilename, outfileName != NULL ? outfileName : "");
 		ErrorMessage(messageContents);
 		Result = NOTOK;
 	}
-- 
2.43.0


From 59e792f217c2e72e84768ba165344859d42f1ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:48 +0000
Subject: [PATCH 62/79] fix: TestAllGraphs() checks for failures to create,
 extend and copy its graphs

---
 c/planarityApp/planarity.h              |  2 +-
 c/planarityApp/planarityTestAllGraphs.c | 23 ++++++++++++++++++++---
 c/planarityApp/planarityUtils.c         | 14 +++++++++-----
 3 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/c/planarityApp/planarity.h b/c/planarityApp/planarity.h
index 325f716..b24fdae 100644
--- a/c/planarityApp/planarity.h
+++ b/c/planarityApp/planarity.h
@@ -61,7 +61,7 @@ extern "C"
     char *GetAlgorithmName(char command);
     char *GetTransformationName(char command);
     char *GetBaseName(int baseFlag);
-    void AttachAlgorithm(graphP theGraph, char command);
+    int AttachAlgorithm(graphP theGraph, char command);
 
     char *ConstructInputFilename(char *infileName);
     char *ConstructPrimaryOutputFilename(char *infileName, char *outfileName, char command);
diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index 692e367..e76c845 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -56,6 +56,11 @@ int TestAllGraphs(char *commandString, char *infileName, char *outfileName, char
 
 	// Create the graph and, if needed, attach the correct algorithm to it
 	theGraph = gp_New();
+	if (theGraph == NULL)
+	{
+		ErrorMessage("Unable to allocate the graph.\n");
+		return NOTOK;
+	}
 
 	if (commandString[0] == '-')
 	{
@@ -156,6 +161,7 @@ int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP sta
 	if (Result != OK)
 	{
 		ErrorMessage("Unable to allocate G6ReadIterator.\n");
+		fclose(infile);
 		stats->errorFlag = TRUE;
 		return Result;
 	}
@@ -186,12 +192,20 @@ int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP sta
 		}
 	}
 
-	AttachAlgorithm(pG6ReadIterator->currGraph, command);
+	Result = AttachAlgorithm(pG6ReadIterator->currGraph, command);
+	if (Result != OK)
+	{
+		ErrorMessage("Unable to attach the algorithm to G6ReadIterator's graph struct.\n");
+		freeG6ReadIterator(&pG6ReadIterator);
+		stats->errorFlag = TRUE;
+		return Result;
+	}
 
 	copyOfOrigGraph = gp_New();
 	if (copyOfOrigGraph == NULL)
 	{
 		ErrorMessage("Unable to allocate graph to store copy of original graph before embedding.\n");
+		freeG6ReadIterator(&pG6ReadIterator);
 		stats->errorFlag = TRUE;
 		return NOTOK;
 	}
@@ -235,9 +249,10 @@ int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP sta
 		if (pG6ReadIterator->currGraph == NULL)
 			break;
 
-		gp_CopyGraph(copyOfOrigGraph, pG6ReadIterator->currGraph);
+		Result = gp_CopyGraph(copyOfOrigGraph, pG6ReadIterator->currGraph);
 
-		Result = gp_Embed(pG6ReadIterator->currGraph, embedFlags);
+		if (Result == OK)
+			Result = gp_Embed(pG6ReadIterator->currGraph, embedFlags);
 
 		if (gp_TestEmbedResultIntegrity(pG6ReadIterator->currGraph, copyOfOrigGraph, Result) != Result)
 			Result = NOTOK;
@@ -412,6 +427,8 @@ int outputTestAllGraphsResults(char command, testAllStatsP stats, char *infileNa
 		if (outputStr != NULL)
 			(*outputStr) = sf_takeTheStr(testOutput);
 	}
+	else if (outputStr != NULL && outfileName == NULL)
+		(*outputStr) = NULL;
 
 	free(headerStr);
 	headerStr = NULL;
diff --git a/c/planarityApp/planarityUtils.c b/c/planarityApp/planarityUtils.c
index 60bccc7..ea0c2f7 100644
--- a/c/planarityApp/planarityUtils.c
+++ b/c/planarityApp/planarityUtils.c
@@ -482,23 +482,27 @@ char *GetBaseName(int baseFlag)
 /****************************************************************************
  ****************************************************************************/
 
-void AttachAlgorithm(graphP theGraph, char command)
+int AttachAlgorithm(graphP theGraph, char command)
 {
+	int Result = OK;
+
 	switch (command)
 	{
 	case 'd':
-		gp_AttachDrawPlanar(theGraph);
+		Result = gp_AttachDrawPlanar(theGraph);
 		break;
 	case '2':
-		gp_AttachK23Search(theGraph);
+		Result = gp_AttachK23Search(theGraph);
 		break;
 	case '3':
-		gp_AttachK33Search(theGraph);
+		Result = gp_AttachK33Search(theGraph);
 		break;
 	case '4':
-		gp_AttachK4Search(theGraph);
+		Result = gp_AttachK4Search(theGraph);
 		break;
 	}
+
+	return Result;
 }
 
 /****************************************************************************
-- 
2.43.0


From cebeca735629237b211d7f5f58a0677dd3f4c16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:48 +0000
Subject: [PATCH 63/79] fix: TestAllGraphs() does not overflow the arc capacity
 of a complete graph

---
 c/planarityApp/planarityTestAllGraphs.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index e76c845..6eefc71 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -182,6 +182,14 @@ int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP sta
 	// don't support expanding the arc capacity after being attached.
 	if (strchr("d34", command) != NULL)
 	{
+		if (graphOrder > 46340)
+		{
+			ErrorMessage("The graphs are too large for the arc capacity of a complete graph.\n");
+			freeG6ReadIterator(&pG6ReadIterator);
+			stats->errorFlag = TRUE;
+			return NOTOK;
+		}
+
 		Result = gp_EnsureArcCapacity(pG6ReadIterator->currGraph, (graphOrder * (graphOrder - 1)));
 		if (Result != OK)
 		{
-- 
2.43.0


From 3b74100a9ccd62f99c9c25ee3295fc8853489897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:48 +0000
Subject: [PATCH 64/79] fix: the legacy command line reports failures to
 allocate, read and write

---
 c/planarityApp/planarityCommandLine.c | 32 ++++++++++++++++-----------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/c/planarityApp/planarityCommandLine.c b/c/planarityApp/planarityCommandLine.c
index a4fedf3..6203a4e 100644
--- a/c/planarityApp/planarityCommandLine.c
+++ b/c/planarityApp/planarityCommandLine.c
@@ -95,20 +95,25 @@ int commandLine(int argc, char *argv[])
 int legacyCommandLine(int argc, char *argv[])
 {
 	graphP theGraph = gp_New();
-	int Result;
+	int Result, writeResult = OK;
+
+	if (theGraph == NULL || argc < 3)
+	{
+		ErrorMessage(theGraph == NULL ? "Unable to allocate the graph" : "No output file provided");
+		gp_Free(&theGraph);
+		return -2;
+	}
 
 	Result = gp_Read(theGraph, argv[1]);
 	if (Result != OK)
 	{
-		if (Result != NONEMBEDDABLE)
-		{
-			char *messageFormat = "Failed to read graph \"%.*s\"";
-			char messageContents[MAXLINE + 1];
-			int charsAvailForFilename = (int)(MAXLINE - strlen(messageFormat));
-			sprintf(messageContents, messageFormat, charsAvailForFilename, argv[1]);
-			ErrorMessage(messageContents);
-			return -2;
-		}
+		char *messageFormat = "Failed to read graph \"%.*s\"";
+		char messageContents[MAXLINE + 1];
+		int charsAvailForFilename = (int)(MAXLINE - strlen(messageFormat));
+		sprintf(messageContents, messageFormat, charsAvailForFilename, argv[1]);
+		ErrorMessage(messageContents);
+		gp_Free(&theGraph);
+		return -2;
 	}
 
 	Result = gp_Embed(theGraph, EMBEDFLAGS_PLANAR);
@@ -116,7 +121,7 @@ int legacyCommandLine(int argc, char *argv[])
 	if (Result == OK)
 	{
 		gp_SortVertices(theGraph);
-		gp_Write(theGraph, argv[2], WRITE_ADJLIST);
+		writeResult = gp_Write(theGraph, argv[2], WRITE_ADJLIST);
 	}
 
 	else if (Result == NONEMBEDDABLE)
@@ -124,10 +129,11 @@ int legacyCommandLine(int argc, char *argv[])
 		if (argc >= 5 && strcmp(argv[3], "-n") == 0)
 		{
 			gp_SortVertices(theGraph);
-			gp_Write(theGraph, argv[4], WRITE_ADJLIST);
+			writeResult = gp_Write(theGraph, argv[4], WRITE_ADJLIST);
 		}
 	}
-	else
+
+	if (writeResult != OK)
 		Result = NOTOK;
 
 	gp_Free(&theGraph);
-- 
2.43.0


From afc4491e58993bbc8d3174428f764ac0520a9cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:48 +0000
Subject: [PATCH 65/79] fix: the transformation self-tests fail without an
 output and free what they allocate

---
 c/planarityApp/planarityCommandLine.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/planarityApp/planarityCommandLine.c b/c/planarityApp/planarityCommandLine.c
index 6203a4e..f169d23 100644
--- a/c/planarityApp/planarityCommandLine.c
+++ b/c/planarityApp/planarityCommandLine.c
@@ -552,6 +552,7 @@ int runGraphTransformationTest(char *command, char *infileName, int inputInMemFl
 		if (Result != OK || actualOutput == NULL)
 		{
 			ErrorMessage("Failed to perform transformation.\n");
+			Result = NOTOK;
 		}
 		else
 		{
@@ -562,6 +563,7 @@ int runGraphTransformationTest(char *command, char *infileName, int inputInMemFl
 			if (Result != OK || expectedOutfileName == NULL)
 			{
 				ErrorMessage("Unable to construct output filename for expected transformation output.\n");
+				free(actualOutput);
 				return -1;
 			}
 
@@ -593,6 +595,9 @@ int runGraphTransformationTest(char *command, char *infileName, int inputInMemFl
 				expectedOutfileName = NULL;
 			}
 		}
+
+		if (actualOutput != NULL)
+			free(actualOutput);
 	}
 
 	Message("\n");
-- 
2.43.0


From ef8750aa953ba8e198752a6fdf4cff4fcad5158c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:48 +0000
Subject: [PATCH 66/79] fix: ReadTextFileIntoString() reports seek and read
 errors

---
 c/planarityApp/planarityUtils.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/c/planarityApp/planarityUtils.c b/c/planarityApp/planarityUtils.c
index ea0c2f7..525384e 100644
--- a/c/planarityApp/planarityUtils.c
+++ b/c/planarityApp/planarityUtils.c
@@ -139,16 +139,26 @@ char *ReadTextFileIntoString(char *infileName)
 	else
 	{
 		long filePos = ftell(infile);
-		long fileSize;
+		long fileSize = -1;
 
-		fseek(infile, 0, SEEK_END);
-		fileSize = ftell(infile);
-		fseek(infile, filePos, SEEK_SET);
+		if (filePos >= 0 && fseek(infile, 0, SEEK_END) == 0)
+			fileSize = ftell(infile);
 
-		if ((inputString = (char *)malloc((fileSize + 1) * sizeof(char))) != NULL)
+		if (fileSize < 0 || fseek(infile, filePos, SEEK_SET) != 0)
+			ErrorMessage("Unable to determine the file size.\n");
+
+		else if ((inputString = (char *)malloc((fileSize + 1) * sizeof(char))) != NULL)
 		{
 			long bytesRead = fread((void *)inputString, 1, fileSize, infile);
-			inputString[bytesRead] = '\0';
+
+			// On platforms that translate line ends, fewer bytes than the file size are normal
+			if (ferror(infile))
+			{
+				free(inputString);
+				inputString = NULL;
+			}
+			else
+				inputString[bytesRead] = '\0';
 		}
 
 		fclose(infile);
-- 
2.43.0


From 68d3f46baf84483e528f5f8afe0c44023c4541cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:48 +0000
Subject: [PATCH 67/79] fix: TextFileMatchesString() does not match a missing
 string or an unreadable file

---
 c/planarityApp/planarityUtils.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c/planarityApp/planarityUtils.c b/c/planarityApp/planarityUtils.c
index 525384e..4e49f2a 100644
--- a/c/planarityApp/planarityUtils.c
+++ b/c/planarityApp/planarityUtils.c
@@ -184,7 +184,7 @@ int TextFileMatchesString(char *theFilename, char *theString)
 	FILE *infile = NULL;
 	int Result = TRUE;
 
-	if (theFilename != NULL)
+	if (theFilename != NULL && theString != NULL)
 		infile = fopen(theFilename, "r");
 
 	if (infile == NULL)
@@ -216,7 +216,10 @@ int TextFileMatchesString(char *theFilename, char *theString)
 		}
 
 		// If the outer while loop got to the end of the file
-		if (c1 == EOF)
+		if (ferror(infile))
+			Result = FALSE;
+
+		else if (c1 == EOF)
 		{
 			// Then get another character from the string, once again suppressing CRs, and then...
 			while ((c2 = (int)theString[stringIndex++]) == '\r')
-- 
2.43.0


From bc72e5fa8854cf6f36acc74d1d75390989a7e5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:48 +0000
Subject: [PATCH 68/79] fix: TextFilesEqual() notices one more character in the
 second file

---
 c/planarityApp/planarityUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/planarityApp/planarityUtils.c b/c/planarityApp/planarityUtils.c
index 4e49f2a..b780e38 100644
--- a/c/planarityApp/planarityUtils.c
+++ b/c/planarityApp/planarityUtils.c
@@ -287,7 +287,7 @@ int TextFilesEqual(char *file1Name, char *file2Name)
 			while ((c2 = fgetc(infile2)) == '\r')
 				;
 			// Test whether or not the second file also ends, same as the first.
-			if (fgetc(infile2) != EOF)
+			if (c2 != EOF)
 				Result = FALSE;
 		}
 	}
-- 
2.43.0


From 043154a5331a88dc56d3f16638ce4fe2c4a575eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:28 +0000
Subject: [PATCH 69/79] fix: testing all graphs handles a stream of
 single-vertex graphs for d, 3 and 4

The arc capacity of a complete graph of order 1 is zero, which
gp_EnsureArcCapacity() rejects.
---
 c/planarityApp/planarityTestAllGraphs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index 6eefc71..05413f5 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -180,7 +180,7 @@ int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP sta
 	// We have to set the maximum arc capacity (i.e. (N * (N - 1))) because some of the test files
 	// can contain complete graphs, and the graph drawing, K_{3, 3} search, and K_4 search extensions
 	// don't support expanding the arc capacity after being attached.
-	if (strchr("d34", command) != NULL)
+	if (graphOrder > 1 && strchr("d34", command) != NULL)
 	{
 		if (graphOrder > 46340)
 		{
@@ -228,7 +228,7 @@ int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP sta
 		return Result;
 	}
 
-	if (strchr("d34", command) != NULL)
+	if (graphOrder > 1 && strchr("d34", command) != NULL)
 	{
 		Result = gp_EnsureArcCapacity(copyOfOrigGraph, (graphOrder * (graphOrder - 1)));
 		if (Result != OK)
-- 
2.43.0


From da9dfd5d4ac3c7c507aefc9ee5cac9369145fd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:32 +0000
Subject: [PATCH 70/79] fix: _ReadAdjList() omits parallel edges

A neighbor repeated in an adjacency list produced parallel edges, which
gp_Embed() does not support: it read beyond the vertex arrays.
---
 c/graphLib/io/graphIO.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 0d795cd..a99661e 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -104,6 +104,9 @@ int _ReadAdjMatrix(graphP theGraph, FILE *Infile, strBufP inBuf)
 
  NOTE:  If a loop edge is found, it is ignored without error.
 
+ NOTE:  If a neighbor is repeated in an adjacency list, the repetition
+        is omitted because parallel edges are not supported.
+
  NOTE:  This routine supports digraphs.  For a directed arc (v -> W),
         an edge record is created in both vertices, v and W, and the
         edge record in v's adjacency list is marked OUTONLY while the
@@ -261,12 +264,19 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
             else if (W == v)
                 return NOTOK;
 
+            // Parallel edges are not supported, so omit a neighbor that has
+            // already been read for this vertex, else mark it as being read
+            else if (gp_GetVertexVisitedInfo(theGraph, W) == NIL - 1 - v)
+                continue;
+
             // If the adjacency is to a succeeding, higher numbered vertex,
             // then we'll add an undirected edge for now
             else if (v < W)
             {
                 if ((ErrorCode = gp_DynamicAddEdge(theGraph, v, 0, W, 0)) != OK)
                     return ErrorCode;
+
+                gp_SetVertexVisitedInfo(theGraph, W, NIL - 1 - v);
             }
 
             // If the adjacency is to a preceding, lower numbered vertex, then
@@ -276,12 +286,12 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
             {
                 // If the adjacency node (arc) already exists, then we add it
                 // as the new first arc of the vertex and delete it from adjList
-                if (gp_IsArc(gp_GetVertexVisitedInfo(theGraph, W)))
+                if (gp_GetVertexVisitedInfo(theGraph, W) > NIL)
                 {
                     e = gp_GetVertexVisitedInfo(theGraph, W);
 
                     // Remove the arc e from the adjList construct
-                    gp_SetVertexVisitedInfo(theGraph, W, NIL);
+                    gp_SetVertexVisitedInfo(theGraph, W, NIL - 1 - v);
                     if (adjList == e)
                     {
                         if ((adjList = gp_GetNextArc(theGraph, e)) == e)
@@ -304,6 +314,8 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
 
                     // Note that this call also sets OUTONLY on the twin arc
                     gp_SetDirection(theGraph, gp_GetFirstArc(theGraph, W), EDGEFLAG_DIRECTION_INONLY);
+
+                    gp_SetVertexVisitedInfo(theGraph, W, NIL - 1 - v);
                 }
             }
         }
@@ -330,6 +342,10 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
         }
     }
 
+    // Leave the visited members clear of the values used only by this routine
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+        gp_SetVertexVisitedInfo(theGraph, v, NIL);
+
     if (zeroBased)
         theGraph->internalFlags |= FLAGS_ZEROBASEDIO;
 
-- 
2.43.0


From c208d103402543fca67cbbc16929b6d3a7e61eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:45 +0000
Subject: [PATCH 71/79] fix: sb_ReadSkipInteger() skips a positive sign

sscanf() accepts it, so reading an adjacency list from a string repeated
the same value without advancing.
---
 c/graphLib/io/strbuf.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c/graphLib/io/strbuf.c b/c/graphLib/io/strbuf.c
index e42cdb3..f5de903 100644
--- a/c/graphLib/io/strbuf.c
+++ b/c/graphLib/io/strbuf.c
@@ -154,14 +154,14 @@ void sb_ReadSkipWhitespace(strBufP theStrBuf)
 /********************************************************************
  sb_ReadSkipInteger()
  Advances the read position managed by the string buffer by skipping
- an initial negative sign, if present, then skipping any number of
- numeric digits, if present.
+ an initial sign (either one, as accepted by sscanf), if present,
+ then skipping any number of numeric digits, if present.
  ********************************************************************/
 void sb_ReadSkipInteger(strBufP theStrBuf)
 {
     if (theStrBuf != NULL && theStrBuf->buf != NULL)
     {
-        if (theStrBuf->buf[theStrBuf->readPos] == '-')
+        if (theStrBuf->buf[theStrBuf->readPos] == '-' || theStrBuf->buf[theStrBuf->readPos] == '+')
             theStrBuf->readPos++;
 
         while (isdigit(theStrBuf->buf[theStrBuf->readPos]))
-- 
2.43.0


From f2e5b05c815ff707bc0385de5ffe671e742fd00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:21 +0000
Subject: [PATCH 72/79] fix: the menu quits when the input ends

A failed scanf() left the previous choice in effect, so the menu repeated
it forever.
---
 c/planarityApp/planarityMenu.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/planarityApp/planarityMenu.c b/c/planarityApp/planarityMenu.c
index 83eff4f..c7c196a 100644
--- a/c/planarityApp/planarityMenu.c
+++ b/c/planarityApp/planarityMenu.c
@@ -32,7 +32,9 @@ int menu(void)
 
         Prompt("Enter Choice: ");
         fflush(stdin);
-        scanf(" %c", &Choice);
+        // No more choices can be made once the input ends
+        if (scanf(" %c", &Choice) != 1)
+            Choice = 'q';
         Choice = tolower(Choice);
 
         if (Choice == 'h')
@@ -53,7 +55,7 @@ int menu(void)
             if (Choice == 'p' || Choice == 'd' || Choice == 'o')
                 secondOutfile = "";
 
-            if (!strchr(GetAlgorithmChoices(), Choice))
+            if (Choice == '\0' || !strchr(GetAlgorithmChoices(), Choice))
             {
                 Message("Invalid menu choice, please try again.");
             }
-- 
2.43.0


From 8bf70f06a7ddb59cbaf8944594788a2bf1486c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:21 +0000
Subject: [PATCH 73/79] fix: the menu prompts for file names and formats work
 on a line-buffered console

The file name prompts read the rest of the line containing the menu choice
(as fflush(stdin) has no effect on some platforms), and the prompts repeated
forever once the input ended.
---
 c/planarityApp/planarityMenu.c | 38 +++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/c/planarityApp/planarityMenu.c b/c/planarityApp/planarityMenu.c
index c7c196a..8c9c8cf 100644
--- a/c/planarityApp/planarityMenu.c
+++ b/c/planarityApp/planarityMenu.c
@@ -115,7 +115,13 @@ void TransformGraphMenu(void)
     {
         Prompt("Enter input filename:\n");
         fflush(stdin);
-        fgets(infileName, MAXLINE, stdin);
+        // Skip the end of the line containing the menu choice, and any blank lines
+        scanf(" ");
+        if (fgets(infileName, MAXLINE, stdin) == NULL)
+        {
+            ErrorMessage("No input filename was given.\n");
+            return;
+        }
 
         if (strncmp(infileName, "stdin", 5) == 0)
         {
@@ -128,7 +134,8 @@ void TransformGraphMenu(void)
 
     Prompt("Enter output filename, or press return to output to console:\n");
     fflush(stdin);
-    fgets(outfileName, MAXLINE, stdin);
+    if (fgets(outfileName, MAXLINE, stdin) == NULL)
+        outfileName[0] = '\0';
     outfileName[strcspn(outfileName, "\n\r")] = '\0';
 
     do
@@ -136,9 +143,13 @@ void TransformGraphMenu(void)
         Message(GetSupportedOutputChoices());
         Prompt("Enter output format: ");
         fflush(stdin);
-        scanf(" %c", &outputFormat);
+        if (scanf(" %c", &outputFormat) != 1)
+        {
+            ErrorMessage("No output format was given.\n");
+            return;
+        }
         outputFormat = tolower(outputFormat);
-        if (strchr(GetSupportedOutputFormats(), outputFormat))
+        if (outputFormat != '\0' && strchr(GetSupportedOutputFormats(), outputFormat))
             sprintf(commandStr, "-%c", outputFormat);
     } while (strlen(commandStr) == 0);
 
@@ -185,7 +196,13 @@ void TestAllGraphsMenu(void)
     {
         Prompt("Enter input filename:\n");
         fflush(stdin);
-        fgets(infileName, MAXLINE, stdin);
+        // Skip the end of the line containing the menu choice, and any blank lines
+        scanf(" ");
+        if (fgets(infileName, MAXLINE, stdin) == NULL)
+        {
+            ErrorMessage("No input filename was given.\n");
+            return;
+        }
 
         if (strncmp(infileName, "stdin", 5) == 0)
         {
@@ -198,7 +215,8 @@ void TestAllGraphsMenu(void)
 
     Prompt("Enter output filename, or press return to output to console:\n");
     fflush(stdin);
-    fgets(outfileName, MAXLINE, stdin);
+    if (fgets(outfileName, MAXLINE, stdin) == NULL)
+        outfileName[0] = '\0';
     outfileName[strcspn(outfileName, "\n\r")] = '\0';
 
     do
@@ -207,9 +225,13 @@ void TestAllGraphsMenu(void)
 
         Prompt("Enter algorithm specifier: ");
         fflush(stdin);
-        scanf(" %c", &algorithmSpecifier);
+        if (scanf(" %c", &algorithmSpecifier) != 1)
+        {
+            ErrorMessage("No algorithm specifier was given.\n");
+            return;
+        }
         algorithmSpecifier = tolower(algorithmSpecifier);
-        if (strchr(GetAlgorithmChoices(), algorithmSpecifier))
+        if (algorithmSpecifier != '\0' && strchr(GetAlgorithmChoices(), algorithmSpecifier))
             sprintf(commandStr, "-%c", algorithmSpecifier);
     } while (strlen(commandStr) == 0);
 
-- 
2.43.0


From f2b2ee518b350757472304af0ab7ad746f1232ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:21 +0000
Subject: [PATCH 74/79] fix: TestAllGraphsMenu() frees the output string

---
 c/planarityApp/planarityMenu.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c/planarityApp/planarityMenu.c b/c/planarityApp/planarityMenu.c
index 8c9c8cf..e3bf1f1 100644
--- a/c/planarityApp/planarityMenu.c
+++ b/c/planarityApp/planarityMenu.c
@@ -253,4 +253,10 @@ void TestAllGraphsMenu(void)
         if (Result != OK)
             ErrorMessage("Algorithm test on all graphs in .g6 input file failed.\n");
     }
+
+    if (outputStr != NULL)
+    {
+        free(outputStr);
+        outputStr = NULL;
+    }
 }
-- 
2.43.0


From 5f71195bc78e508bdb39a782982a4364f13ac25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:21 +0000
Subject: [PATCH 75/79] fix: ConstructInputFilename() bounds the name typed by
 the user

A long name overran theFileName, and the end of the input left a stale
name in effect.  A null menu mode is also rejected by Reconfigure().
---
 c/planarityApp/planarityUtils.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/c/planarityApp/planarityUtils.c b/c/planarityApp/planarityUtils.c
index b780e38..19801fb 100644
--- a/c/planarityApp/planarityUtils.c
+++ b/c/planarityApp/planarityUtils.c
@@ -28,7 +28,7 @@ void Reconfigure(void)
 	scanf(" %c", &Mode);
 
 	Mode = tolower(Mode);
-	if (!strchr("rsmn", Mode))
+	if (Mode == '\0' || !strchr("rsmn", Mode))
 		Mode = 's';
 
 	if (Mode == 'r')
@@ -540,11 +540,28 @@ char theFileName[FILENAMEMAXLENGTH + 1 + ALGORITHMNAMEMAXLENGTH + 1 + SUFFIXMAXL
 
 char *ConstructInputFilename(char *infileName)
 {
+	int nextChar;
+
 	if (infileName == NULL)
 	{
 		Prompt("Enter graph file name: ");
 		fflush(stdin);
-		scanf(" %s", theFileName);
+		// The width is FILENAMEMAXLENGTH, so that the suffixes fit, too
+		if (scanf(" %128s", theFileName) != 1)
+		{
+			ErrorMessage("No graph file name was given.\n");
+			return NULL;
+		}
+
+		// If the next character is not white space, then the name is longer
+		if ((nextChar = getc(stdin)) != EOF && !isspace(nextChar))
+		{
+			while ((nextChar = getc(stdin)) != EOF && !isspace(nextChar))
+				;
+			ErrorMessage("Filename is too long");
+			return NULL;
+		}
+		ungetc(nextChar, stdin);
 
 		if (!strchr(theFileName, '.'))
 			strcat(theFileName, ".txt");
-- 
2.43.0


From 318dc1a4c261fae6ed7e7a5e1698cc2662eccdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:43 +0000
Subject: [PATCH 76/79] fix: _WriteAdjMatrix() rejects edges to virtual
 vertices

It wrote beyond the end of the row buffer when given the working graph of a
search that found no homeomorphic subgraph.
---
 c/graphLib/io/graphIO.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index a99661e..9cb75f3 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -744,7 +744,9 @@ int _WriteAdjMatrix(graphP theGraph, FILE *Outfile, strBufP outBuf)
         e = gp_GetFirstArc(theGraph, v);
         while (gp_IsArc(e))
         {
-            if (gp_GetDirection(theGraph, e) == EDGEFLAG_DIRECTION_INONLY)
+            // Directed edges and edges to virtual vertices cannot be represented
+            if (gp_GetDirection(theGraph, e) == EDGEFLAG_DIRECTION_INONLY ||
+                gp_GetNeighbor(theGraph, e) > gp_GetLastVertex(theGraph))
             {
                 free(Row);
                 return NOTOK;
-- 
2.43.0


From 20dda66d7086874b9d176bd96ab09da719f5798d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:43 +0000
Subject: [PATCH 77/79] fix: random graph searches write the graphs having no
 subgraph found, not working state

---
 c/planarityApp/planarityRandomGraphs.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/c/planarityApp/planarityRandomGraphs.c b/c/planarityApp/planarityRandomGraphs.c
index 6ae8944..cd284c2 100644
--- a/c/planarityApp/planarityRandomGraphs.c
+++ b/c/planarityApp/planarityRandomGraphs.c
@@ -112,12 +112,16 @@ int writeErrorReported_Random=FALSE, writeErrorReported_Embedded=FALSE,
 
 				if (Result == OK)
 				{
+					// A search that finds no subgraph doesn't produce an embedding
+					// and leaves its working state in theGraph
+					graphP resultGraph = strchr("234", command) ? origGraph : theGraph;
+
 					MainStatistic++;
 
 					if (tolower(EmbeddableOut) == 'y')
 					{
 						sprintf(theFileName, "embedded%c%d.txt", FILE_DELIMITER, K%10);
-						writeResult = gp_Write(theGraph, theFileName, WRITE_ADJMATRIX);
+						writeResult = gp_Write(resultGraph, theFileName, WRITE_ADJMATRIX);
 						if (writeResult != OK && !writeErrorReported_Embedded)
 						{
 							sprintf(messageContents, messageFormat, charsAvailForStr, theFileName);
@@ -129,7 +133,7 @@ int writeErrorReported_Random=FALSE, writeErrorReported_Embedded=FALSE,
 					if (tolower(AdjListsForEmbeddingsOut) == 'y')
 					{
 						sprintf(theFileName, "adjlist%c%d.txt", FILE_DELIMITER, K%10);
-						writeResult = gp_Write(theGraph, theFileName, WRITE_ADJLIST);
+						writeResult = gp_Write(resultGraph, theFileName, WRITE_ADJLIST);
 						if (writeResult != OK && !writeErrorReported_AdjList)
 						{
 							sprintf(messageContents, messageFormat, charsAvailForStr, theFileName);
-- 
2.43.0


From 780dd9030cd6281cdc5d0e88f60add30b8098e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:26 +0000
Subject: [PATCH 78/79] fix: _FindK33WithMergeBlocker() rebuilds the extFace
 links before its Walkups

---
 c/graphLib/homeomorphSearch/graphK33Search.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/c/graphLib/homeomorphSearch/graphK33Search.c b/c/graphLib/homeomorphSearch/graphK33Search.c
index d37da67..937b0b9 100644
--- a/c/graphLib/homeomorphSearch/graphK33Search.c
+++ b/c/graphLib/homeomorphSearch/graphK33Search.c
@@ -839,6 +839,19 @@ int _FindK33WithMergeBlocker(graphP theGraph, K33SearchContext *context, int v,
         gp_SetVertexFuturePertinentChild(theGraph, v, gp_GetVertexSortedDFSChildList(theGraph, v));
     }
 
+    /* The Walkup traverses the extFace links, but those may short-circuit inactive
+       vertices and may have been partly overwritten along the restored paths, so
+       we reset them to the actual external face of each bicomp */
+
+    for (v = gp_GetFirstVertex(theGraph); gp_VirtualVertexInRange(theGraph, v); v++)
+    {
+        if (gp_IsArc(gp_GetFirstArc(theGraph, v)))
+        {
+            gp_SetExtFaceVertex(theGraph, v, 0, gp_GetNeighbor(theGraph, gp_GetFirstArc(theGraph, v)));
+            gp_SetExtFaceVertex(theGraph, v, 1, gp_GetNeighbor(theGraph, gp_GetLastArc(theGraph, v)));
+        }
+    }
+
     /* Restore the pertinence settings of step v by doing the Walkup for each
        back edge that was not embedded when step v was originally performed. */
 
-- 
2.43.0


From c8f04af1130fd42bfaa947dcc10ce1a0dd6a796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:03 +0000
Subject: [PATCH 79/79] fix: beginning a G6 iteration is refused while one is
 active or without an iterator, and restarts the count

---
 c/graphLib/io/g6-read-iterator.c  | 17 +++++++++++++++++
 c/graphLib/io/g6-write-iterator.c | 21 +++++++++++++++++++++
 2 files changed, 38 insertions(+)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index e72ca2d..f1e67af 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -146,6 +146,14 @@ int beginG6ReadIterationFromG6FilePointer(G6ReadIterator *pG6ReadIterator, FILE
 		return NOTOK;
 	}
 
+	if (!_isG6ReadIteratorAllocated(pG6ReadIterator) || pG6ReadIterator->g6Input != NULL)
+	{
+		ErrorMessage("G6ReadIterator is not allocated, or its current iteration has not been ended.\n");
+		if (g6Infile != stdin)
+			fclose(g6Infile);
+		return NOTOK;
+	}
+
 	strOrFileP g6Input = sf_New(g6Infile, NULL);
 
 	if (g6Input == NULL)
@@ -175,6 +183,13 @@ int beginG6ReadIterationFromG6String(G6ReadIterator *pG6ReadIterator, char *g6In
 		return NOTOK;
 	}
 
+	if (!_isG6ReadIteratorAllocated(pG6ReadIterator) || pG6ReadIterator->g6Input != NULL)
+	{
+		ErrorMessage("G6ReadIterator is not allocated, or its current iteration has not been ended.\n");
+		free(g6InputStr);
+		return NOTOK;
+	}
+
 	strOrFileP g6Input = sf_New(NULL, g6InputStr);
 
 	if (g6Input == NULL)
@@ -200,6 +215,8 @@ int _beginG6ReadIteration(G6ReadIterator *pG6ReadIterator)
 
 	strOrFileP g6Input = pG6ReadIterator->g6Input;
 
+	pG6ReadIterator->numGraphsRead = 0;
+
 	int firstChar = sf_getc(g6Input);
 	if (firstChar == EOF)
 	{
diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index 5f23f11..0c7663c 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -128,6 +128,12 @@ int beginG6WriteIterationToG6FilePath(G6WriteIterator *pG6WriteIterator, char *g
 		return NOTOK;
 	}
 
+	if (pG6WriteIterator->g6Output != NULL)
+	{
+		ErrorMessage("The current iteration of the G6WriteIterator has not been ended.\n");
+		return NOTOK;
+	}
+
 	g6FilePath[strcspn(g6FilePath, "\n\r")] = '\0';
 
 	FILE *g6Outfile = fopen(g6FilePath, "w");
@@ -160,6 +166,14 @@ int beginG6WriteIterationToG6FilePointer(G6WriteIterator *pG6WriteIterator, FILE
 		return NOTOK;
 	}
 
+	if (!_isG6WriteIteratorAllocated(pG6WriteIterator) || pG6WriteIterator->g6Output != NULL)
+	{
+		ErrorMessage("G6WriteIterator is not allocated, or its current iteration has not been ended.\n");
+		if (g6Outfile != stdout && g6Outfile != stderr)
+			fclose(g6Outfile);
+		return NOTOK;
+	}
+
 	pG6WriteIterator->g6Output = sf_New(g6Outfile, NULL);
 
 	if (pG6WriteIterator->g6Output == NULL)
@@ -188,6 +202,12 @@ int beginG6WriteIterationToG6String(G6WriteIterator *pG6WriteIterator, char **g6
 		return NOTOK;
 	}
 
+	if (!_isG6WriteIteratorAllocated(pG6WriteIterator) || pG6WriteIterator->g6Output != NULL)
+	{
+		ErrorMessage("G6WriteIterator is not allocated, or its current iteration has not been ended.\n");
+		return NOTOK;
+	}
+
 	if ((*g6OutputStr) == NULL)
 	{
 		(*g6OutputStr) = (char *) malloc(1 * sizeof(char));
@@ -234,6 +254,7 @@ int _beginG6WriteIteration(G6WriteIterator *pG6WriteIterator)
 		return NOTOK;
 	}
 
+	pG6WriteIterator->numGraphsWritten = 0;
 	pG6WriteIterator->graphOrder = pG6WriteIterator->currGraph->N;
 
 	pG6WriteIterator->columnOffsets = (long long *) calloc(pG6WriteIterator->graphOrder + 1, sizeof(long long));
-- 
2.43.0

