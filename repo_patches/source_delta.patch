From ec831678f0f1cd4511797ef95dc41383bdf55ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:01 +0000
Subject: [PATCH 001/151] fix: remove a node from the grammar heap without
 breaking the heap order or its size

---
 packages/vgrammar-core/src/util/grammar-heap.ts | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/packages/vgrammar-core/src/util/grammar-heap.ts b/packages/vgrammar-core/src/util/grammar-heap.ts
index 746e894..f7b300f 100644
--- a/packages/vgrammar-core/src/util/grammar-heap.ts
+++ b/packages/vgrammar-core/src/util/grammar-heap.ts
@@ -97,13 +97,17 @@ export class Heap {
   }
 
   remove(node: any) {
-    if (this.nodes.includes(node)) {
-      const index = this.nodes.indexOf(node);
+    const index = this.nodes.indexOf(node);
 
-      this.nodes = this.nodes.slice(0, index).concat(this.nodes.slice(index + 1));
+    if (index >= 0) {
+      const last = this.nodes.pop();
 
-      moveToHead(this.nodes, index, 0, this.compare);
-      moveToTail(this.nodes, index, null, this.compare);
+      if (index < this.nodes.length) {
+        // fill the hole by the last node, and then move this node to the correct position
+        this.nodes[index] = last;
+        moveToHead(this.nodes, index, 0, this.compare);
+        moveToTail(this.nodes, index, null, this.compare);
+      }
     }
   }
 
-- 
2.43.0


From 55a0fe4c5542d9c5a47b937a1773a092081eb012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:37 +0000
Subject: [PATCH 002/151] fix: detach() dropped a dependency while other
 references to it remained

---
 packages/vgrammar-core/src/view/grammar-base.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/view/grammar-base.ts b/packages/vgrammar-core/src/view/grammar-base.ts
index 759ef5e..1c5ca7f 100644
--- a/packages/vgrammar-core/src/view/grammar-base.ts
+++ b/packages/vgrammar-core/src/view/grammar-base.ts
@@ -168,7 +168,7 @@ export abstract class GrammarBase extends EventEmitter implements IGrammarBase {
       .forEach(ref => {
         const refCount = this.references.get(ref) - count;
         if (refCount > 0) {
-          this.references.set(ref, refCount - 1);
+          this.references.set(ref, refCount);
         } else {
           this.references.delete(ref);
           if (ref.targets.includes(this)) {
-- 
2.43.0


From cd6229f8946bff4690ad2a76a3b660cc7abc695c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:37 +0000
Subject: [PATCH 003/151] fix: mark.coordinate() kept depending on the
 coordinate it replaced

---
 packages/vgrammar-core/src/view/mark.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index 05927c7..44f18e8 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -354,6 +354,9 @@ export class Mark extends GrammarBase implements IMark {
   }
 
   coordinate(coordinate: ICoordinate | string | Nil) {
+    if (this.coord) {
+      this.detach(this.coord);
+    }
     if (isString(coordinate)) {
       this.coord = this.view.getCoordinateById(coordinate);
     } else {
-- 
2.43.0


From de8c178dc55eeff6aa4e5c13a683dd2eddc46127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:25 +0000
Subject: [PATCH 004/151] fix: data switched from source to values fell back to
 its old upstream when re-evaluated

---
 packages/vgrammar-core/src/view/data.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/vgrammar-core/src/view/data.ts b/packages/vgrammar-core/src/view/data.ts
index c977849..4361d0a 100644
--- a/packages/vgrammar-core/src/view/data.ts
+++ b/packages/vgrammar-core/src/view/data.ts
@@ -64,6 +64,9 @@ export class Data extends GrammarBase implements IData {
     const refs: IGrammarBase[] = [];
     const transforms: IGrammarTask[] = [];
 
+    // the upstream is only valid when data is loaded from `source`
+    this.grammarSource = null;
+
     const formatRef = spec.format ? parseFunctionType(spec.format, this.view)[0] : null;
     if (formatRef) {
       refs.push(formatRef);
-- 
2.43.0


From c192282ad49210172c57f947027c3c259663d091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:25 +0000
Subject: [PATCH 005/151] fix: sort transform reordered the rows of its
 upstream data

---
 packages/vgrammar-core/src/transforms/data/sort.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/transforms/data/sort.ts b/packages/vgrammar-core/src/transforms/data/sort.ts
index effd1a2..a8303a7 100644
--- a/packages/vgrammar-core/src/transforms/data/sort.ts
+++ b/packages/vgrammar-core/src/transforms/data/sort.ts
@@ -8,7 +8,8 @@ export const transform = (options: SortTransformOptions, upstreamData: any[]) =>
   if (sort && upstreamData) {
     const sortFn = isFunction(sort) ? sort : compare(sort.field, sort.order);
 
-    upstreamData.sort((a: any, b: any) => sortFn(a, b));
+    // sort a copy, the upstream array belongs to the upstream data
+    return upstreamData.slice().sort((a: any, b: any) => sortFn(a, b));
   }
 
   return upstreamData;
-- 
2.43.0


From 5703dfcbef8cd5b9d1057ca0f0f7883ab4b6b6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:41 +0000
Subject: [PATCH 006/151] fix: scale.configure() released the references of the
 new configuration instead of the replaced one

---
 packages/vgrammar-core/src/view/scale.ts | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/view/scale.ts b/packages/vgrammar-core/src/view/scale.ts
index 0e4a53e..6a28c33 100644
--- a/packages/vgrammar-core/src/view/scale.ts
+++ b/packages/vgrammar-core/src/view/scale.ts
@@ -1,4 +1,4 @@
-import { isNil } from '@visactor/vutils';
+import { isNil, pick } from '@visactor/vutils';
 import type { IBandLikeScale, IRangeFactor, IBaseScale, TickData, ScaleFishEyeOptions } from '@visactor/vscale';
 import { supportRangeFactor } from '@visactor/vscale';
 import type { IGrammarBase, IGrammarBaseConstructor, IView } from '../types';
@@ -172,7 +172,14 @@ export class Scale extends GrammarBase implements IScale {
   }
 
   configure(config: ScaleConfigureSpec | Nil) {
-    this.detach(parseScaleConfig(this.spec.type, config, this.view));
+    // release the references of the configurations which are going to be replaced
+    this.detach(
+      parseScaleConfig(
+        this.spec.type,
+        (isNil(config) ? this.spec : pick(this.spec, Object.keys(config) as any[])) as ScaleConfigureSpec,
+        this.view
+      )
+    );
     if (isNil(config)) {
       this.spec = { type: this.spec.type, domain: this.spec.domain, range: this.spec.range } as ScaleSpec;
     } else {
-- 
2.43.0


From 14f3ea82eca39d05334208e0d24b68559e543270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:41 +0000
Subject: [PATCH 007/151] fix: band scale ignored round: false and zero
 paddings or align

---
 packages/vgrammar-core/src/parse/scale.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/packages/vgrammar-core/src/parse/scale.ts b/packages/vgrammar-core/src/parse/scale.ts
index 337053a..7246190 100644
--- a/packages/vgrammar-core/src/parse/scale.ts
+++ b/packages/vgrammar-core/src/parse/scale.ts
@@ -395,11 +395,11 @@ function configureQuantizeScale(spec: QuantizeScaleSpec, scale: IQuantizeScale,
 }
 
 function configureBaseBandScale(spec: BaseBandScaleSpec, scale: IBandLikeScale, parameters: any) {
-  spec.round && scale.round(invokeFunctionType(spec.round, parameters, scale), true);
-  spec.padding && scale.padding(invokeFunctionType(spec.padding, parameters, scale), true);
-  spec.paddingInner && scale.paddingInner(invokeFunctionType(spec.paddingInner, parameters, scale), true);
-  spec.paddingOuter && scale.paddingOuter(invokeFunctionType(spec.paddingOuter, parameters, scale), true);
-  spec.align && scale.align(invokeFunctionType(spec.align, parameters, scale), true);
+  !isNil(spec.round) && scale.round(invokeFunctionType(spec.round, parameters, scale), true);
+  !isNil(spec.padding) && scale.padding(invokeFunctionType(spec.padding, parameters, scale), true);
+  !isNil(spec.paddingInner) && scale.paddingInner(invokeFunctionType(spec.paddingInner, parameters, scale), true);
+  !isNil(spec.paddingOuter) && scale.paddingOuter(invokeFunctionType(spec.paddingOuter, parameters, scale), true);
+  !isNil(spec.align) && scale.align(invokeFunctionType(spec.align, parameters, scale), true);
 }
 
 function configureBandScale(spec: BandScaleSpec, scale: IBandLikeScale, parameters: any) {
-- 
2.43.0


From 092b135cf7870e27042fbe9621ff5fae8a5b9a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:22 +0000
Subject: [PATCH 008/151] fix: continuous scale domain from data was poisoned
 by missing values

---
 packages/vgrammar-core/src/parse/scale.ts | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/parse/scale.ts b/packages/vgrammar-core/src/parse/scale.ts
index 7246190..9893581 100644
--- a/packages/vgrammar-core/src/parse/scale.ts
+++ b/packages/vgrammar-core/src/parse/scale.ts
@@ -2,7 +2,6 @@ import {
   isArray,
   isFunction,
   isNil,
-  isNumber,
   isString,
   isValidNumber,
   maxInArray,
@@ -460,7 +459,7 @@ function parseScaleDataTypeValue(
   }
 
   if (filterNumber) {
-    fieldData.filter(entry => isNumber(entry));
+    fieldData = fieldData.filter(entry => !isNil(entry) && !Number.isNaN(+entry));
   }
   return [minInArray(fieldData), maxInArray(fieldData)];
 }
-- 
2.43.0


From 17cc3ce53efabea35ad1adbb370d5e729ae027e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 009/151] fix: scales and coordinates of a spec were created
 twice and customized grammars recorded twice

---
 packages/vgrammar-core/src/view/View.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/view/View.ts b/packages/vgrammar-core/src/view/View.ts
index 6c849b1..26c21ea 100644
--- a/packages/vgrammar-core/src/view/View.ts
+++ b/packages/vgrammar-core/src/view/View.ts
@@ -388,9 +388,10 @@ export default class View extends EventEmitter implements IView {
     const grammar = Factory.createGrammar(type, this, spec?.type);
 
     if (grammar) {
-      grammar.parse(spec);
       this.grammars.record(grammar);
       this._dataflow.add(grammar);
+      // the id is updated in parse(), which records the grammar again
+      grammar.parse(spec);
       return grammar;
     }
   }
@@ -512,6 +513,11 @@ export default class View extends EventEmitter implements IView {
     Object.keys(customizedGrammars).forEach(key => {
       const { specKey } = customizedGrammars[key];
 
+      // scales and coordinates are already parsed
+      if (specKey === 'scales' || specKey === 'coordinates') {
+        return;
+      }
+
       if (spec[specKey] && spec[specKey].length) {
         spec[specKey].forEach((specValue: any) => {
           this.customized(key, specValue);
-- 
2.43.0


From 91e2ca9e8afcf9bb941ac054dbfb674e42e7799a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 010/151] fix: reusing a mark which was replaced before it was
 ever evaluated crashed

---
 packages/vgrammar-core/src/view/mark-animate-mixin.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/view/mark-animate-mixin.ts b/packages/vgrammar-core/src/view/mark-animate-mixin.ts
index f55b821..3217bfa 100644
--- a/packages/vgrammar-core/src/view/mark-animate-mixin.ts
+++ b/packages/vgrammar-core/src/view/mark-animate-mixin.ts
@@ -17,8 +17,11 @@ class MarkAnimateMixin {
   }
 
   reuseAnimate(mark: IMark) {
+    // animate is not created when the mark has never been evaluated
     this.animate = mark.animate;
-    this.animate.mark = this as unknown as IMark;
+    if (this.animate) {
+      this.animate.mark = this as unknown as IMark;
+    }
   }
 
   updateAnimate(spec: MarkSpec) {
-- 
2.43.0


From c2ec4ebadaad895a54bfa1b5bdb529a318d056fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:52 +0000
Subject: [PATCH 011/151] fix: marks were drawn in the wrong order after a spec
 update reused some of them

---
 packages/vgrammar-core/src/view/View.ts | 33 +++++++++++++++++++++++++
 packages/vgrammar-core/src/view/mark.ts |  2 ++
 2 files changed, 35 insertions(+)

diff --git a/packages/vgrammar-core/src/view/View.ts b/packages/vgrammar-core/src/view/View.ts
index 26c21ea..2ed6171 100644
--- a/packages/vgrammar-core/src/view/View.ts
+++ b/packages/vgrammar-core/src/view/View.ts
@@ -875,6 +875,10 @@ export default class View extends EventEmitter implements IView {
 
     this._layoutState = null;
 
+    if (grammarWillDetach) {
+      this.sortGraphicItems();
+    }
+
     this.findProgressiveMarks();
 
     // resize again if width/height signal is updated duration dataflow
@@ -998,6 +1002,35 @@ export default class View extends EventEmitter implements IView {
     this._cachedGrammars.clear();
   }
 
+  /**
+   * graphic items are inserted one by one while marks are being evaluated,
+   * the order needs to be corrected when marks are replaced, since graphic items of the replaced marks are still there
+   */
+  private sortGraphicItems() {
+    this.traverseMarkTree(
+      (mark: IMark) => {
+        const groupItem: any = mark.getGroupGraphicItem();
+        if (!groupItem) {
+          return;
+        }
+        const sortedItems = (mark as IGroupMark).children
+          .map(child => (child.markType === GrammarMarkType.group ? child.getGroupGraphicItem() : child.graphicItem))
+          .filter((item: any) => item && item.parent === groupItem);
+        const currentItems: any[] = [];
+        groupItem.forEachChildren((item: any) => {
+          if (sortedItems.includes(item)) {
+            currentItems.push(item);
+          }
+        });
+        if (currentItems.some((item, index) => item !== sortedItems[index])) {
+          sortedItems.forEach(item => groupItem.removeChild(item));
+          sortedItems.forEach((item, index) => groupItem.insertIntoKeepIdx(item, index));
+        }
+      },
+      (mark: IMark) => mark.markType === GrammarMarkType.group
+    );
+  }
+
   runAfter(callback: (view: IView) => void) {
     this._dataflow.runAfter(() => {
       callback.call(null, this);
diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index 44f18e8..13a7551 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -652,6 +652,8 @@ export class Mark extends GrammarBase implements IMark {
       }
       this.graphicParent = this.graphicItem;
       if (groupGraphicItem && (this.graphicIndex !== markIndex || this.graphicItem.parent !== groupGraphicItem)) {
+        // leave the old position first, the index refers to the other children
+        this.graphicItem.parent?.removeChild(this.graphicItem);
         groupGraphicItem.insertIntoKeepIdx(this.graphicItem, markIndex);
       }
     } else {
-- 
2.43.0


From 44f8f9714e701a57c4ddecbdfd1eeaaea9963aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:42 +0000
Subject: [PATCH 012/151] fix: elements of different groups were merged when
 group and key concatenate to the same string

---
 packages/vgrammar-core/src/view/mark.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index 13a7551..99599f3 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -52,6 +52,9 @@ import type { IBaseScale } from '@visactor/vscale';
 import { EVENT_SOURCE_VIEW } from './constants';
 import { Element } from '../graph/element';
 
+// both keys may contain the separator, the length keeps different pairs apart
+const getElementKey = (groupKey: string, key: string) => `${`${groupKey}`.length}-${groupKey}-${key}`;
+
 export class Mark extends GrammarBase implements IMark {
   readonly grammarType: GrammarType = 'mark';
 
@@ -769,7 +772,7 @@ export class Mark extends GrammarBase implements IMark {
         groupData(
           currentData,
           (datum: any) => {
-            return `${groupKeyGetter(datum)}-${keyGetter(datum)}`;
+            return getElementKey(groupKeyGetter(datum), keyGetter(datum));
           },
           undefined
         )
@@ -781,7 +784,7 @@ export class Mark extends GrammarBase implements IMark {
 
     // Enter elements between dataflow start data and end data should be removed directly.
     enterElements.forEach(element => {
-      this.elementMap.delete(isCollectionMark ? element.groupKey : `${element.groupKey}-${element.key}`);
+      this.elementMap.delete(isCollectionMark ? element.groupKey : getElementKey(element.groupKey, element.key));
       element.remove();
       element.release();
     });
-- 
2.43.0


From 9ab369074efdf2fc05f9b69331421a77f335e7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:40 +0000
Subject: [PATCH 013/151] fix: channels encoded on top of a function encoder
 were ignored

---
 packages/vgrammar-core/src/view/mark.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index 99599f3..4e24c7c 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -395,6 +395,8 @@ export class Mark extends GrammarBase implements IMark {
       // detach last dependencies
       if (isFunctionType(lastEncoder)) {
         this.detach(parseEncodeType(lastEncoder, this.view));
+        // channels can't be merged into a function
+        (this.spec.encode as any)[state] = {};
       } else {
         const isSingleChannel = isString(channel);
         const clearAll = (isSingleChannel && clear) || (!isSingleChannel && value);
-- 
2.43.0


From e617d371e96caa33f353e53a080d89d75e65d6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:37 +0000
Subject: [PATCH 014/151] fix: channels which are transformed (rule, text,
 symbol) were lost when a state was cleared

---
 .../src/graph/attributes/transform.ts             |  6 ++++--
 packages/vgrammar-core/src/graph/element.ts       | 15 +++++++++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/attributes/transform.ts b/packages/vgrammar-core/src/graph/attributes/transform.ts
index a5683a7..83b6f94 100644
--- a/packages/vgrammar-core/src/graph/attributes/transform.ts
+++ b/packages/vgrammar-core/src/graph/attributes/transform.ts
@@ -129,8 +129,10 @@ export const transformsByType: Record<string, AttributeTransform[]> = {
     {
       channels: ['shape', 'symbolType'],
       transform: (graphicAttributes: any, nextAttrs: any, storedAttrs: any) => {
-        graphicAttributes.symbolType = nextAttrs.shape ?? nextAttrs.symbolType;
-      }
+        graphicAttributes.symbolType =
+          nextAttrs.shape ?? nextAttrs.symbolType ?? storedAttrs.shape ?? storedAttrs.symbolType;
+      },
+      storedAttrs: 'shapeAttrs'
     },
     {
       channels: ['image', 'fill', 'background'],
diff --git a/packages/vgrammar-core/src/graph/element.ts b/packages/vgrammar-core/src/graph/element.ts
index a8454d7..a921883 100644
--- a/packages/vgrammar-core/src/graph/element.ts
+++ b/packages/vgrammar-core/src/graph/element.ts
@@ -108,6 +108,21 @@ export class Element implements IElement {
         const graphicAttributes = transformAttributes(attrTransforms, attributes, this);
         return graphicAttributes;
       };
+      // the channels which are stored before transformed should be restored by their stored values when states are cleared
+      const getNormalAttribute = (this.graphicItem as any).getNormalAttribute;
+      (this.graphicItem as any).getNormalAttribute = (key: string) => {
+        if (!this.mark || !attrTransforms.some(entry => entry.storedAttrs && entry.channels.includes(key))) {
+          return getNormalAttribute.call(this.graphicItem, key);
+        }
+        let value = this.getGraphicAttribute(key);
+        (this.graphicItem as any).animates?.forEach((animate: any) => {
+          const endProps = animate.stateNames && animate.getEndProps();
+          if (endProps && has(endProps, key)) {
+            value = endProps[key];
+          }
+        });
+        return value;
+      };
     }
 
     // transform initial attributes
-- 
2.43.0


From f3ad376008394381e397e34afef121bdfa43dff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:37 +0000
Subject: [PATCH 015/151] fix: runtime attributes of a removed state came back
 when the state was added again

---
 packages/vgrammar-core/src/graph/element.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/vgrammar-core/src/graph/element.ts b/packages/vgrammar-core/src/graph/element.ts
index a921883..f6f2cba 100644
--- a/packages/vgrammar-core/src/graph/element.ts
+++ b/packages/vgrammar-core/src/graph/element.ts
@@ -507,6 +507,11 @@ export class Element implements IElement {
 
     const graphicAttributes = this.transformElementItems(stateItems, this.mark.markType);
 
+    // attributes set at runtime should not outlive the runtime state
+    if (isRuntimeState) {
+      return graphicAttributes;
+    }
+
     if (!this.graphicItem.states) {
       this.graphicItem.states = { [stateName]: graphicAttributes };
     } else if (!this.graphicItem.states[stateName]) {
-- 
2.43.0


From cf0c47172791b0bb8edf142dc8321957eaca047e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 016/151] fix: restore the shape of symbols without storing an
 additional attribute

---
 packages/vgrammar-core/src/graph/attributes/transform.ts | 5 ++---
 packages/vgrammar-core/src/graph/element.ts              | 8 +++++---
 packages/vgrammar-core/src/types/mark.ts                 | 2 ++
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/attributes/transform.ts b/packages/vgrammar-core/src/graph/attributes/transform.ts
index 83b6f94..356f3b1 100644
--- a/packages/vgrammar-core/src/graph/attributes/transform.ts
+++ b/packages/vgrammar-core/src/graph/attributes/transform.ts
@@ -129,10 +129,9 @@ export const transformsByType: Record<string, AttributeTransform[]> = {
     {
       channels: ['shape', 'symbolType'],
       transform: (graphicAttributes: any, nextAttrs: any, storedAttrs: any) => {
-        graphicAttributes.symbolType =
-          nextAttrs.shape ?? nextAttrs.symbolType ?? storedAttrs.shape ?? storedAttrs.symbolType;
+        graphicAttributes.symbolType = nextAttrs.shape ?? nextAttrs.symbolType;
       },
-      storedAttrs: 'shapeAttrs'
+      rename: { shape: 'symbolType' }
     },
     {
       channels: ['image', 'fill', 'background'],
diff --git a/packages/vgrammar-core/src/graph/element.ts b/packages/vgrammar-core/src/graph/element.ts
index f6f2cba..b460d17 100644
--- a/packages/vgrammar-core/src/graph/element.ts
+++ b/packages/vgrammar-core/src/graph/element.ts
@@ -108,11 +108,13 @@ export class Element implements IElement {
         const graphicAttributes = transformAttributes(attrTransforms, attributes, this);
         return graphicAttributes;
       };
-      // the channels which are stored before transformed should be restored by their stored values when states are cleared
+      // when states are cleared, transformed channels should be restored by the values before transformed
       const getNormalAttribute = (this.graphicItem as any).getNormalAttribute;
       (this.graphicItem as any).getNormalAttribute = (key: string) => {
-        if (!this.mark || !attrTransforms.some(entry => entry.storedAttrs && entry.channels.includes(key))) {
-          return getNormalAttribute.call(this.graphicItem, key);
+        const transform = attrTransforms.find(entry => entry.channels.includes(key));
+
+        if (!this.mark || !transform?.storedAttrs) {
+          return getNormalAttribute.call(this.graphicItem, transform?.rename?.[key] ?? key);
         }
         let value = this.getGraphicAttribute(key);
         (this.graphicItem as any).animates?.forEach((animate: any) => {
diff --git a/packages/vgrammar-core/src/types/mark.ts b/packages/vgrammar-core/src/types/mark.ts
index 336d6da..e034ee8 100644
--- a/packages/vgrammar-core/src/types/mark.ts
+++ b/packages/vgrammar-core/src/types/mark.ts
@@ -546,6 +546,8 @@ export interface AttributeTransform {
   channels: string[];
   transform: (graphicAttributes: any, nextAttrs: any, storedAttrs: any) => void;
   storedAttrs?: string;
+  /** channels which are only kept under another name after transformed */
+  rename?: Record<string, string>;
 }
 
 export interface IMarkConstructor {
-- 
2.43.0


From aae80428ec41f5ce2dcd0fa212fc8e4119bd9858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:53 +0000
Subject: [PATCH 017/151] fix: join matched rows by properties inherited by the
 key index

---
 packages/vgrammar-core/src/transforms/data/join.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/transforms/data/join.ts b/packages/vgrammar-core/src/transforms/data/join.ts
index dc4e14c..5dd29c0 100644
--- a/packages/vgrammar-core/src/transforms/data/join.ts
+++ b/packages/vgrammar-core/src/transforms/data/join.ts
@@ -11,7 +11,7 @@ export const transform = (options: JoinTransformOption, data: any[]) => {
   const indexMap = (from || []).reduce((map: any, tuple: any) => {
     map[keyAccessor(tuple)] = tuple;
     return map;
-  }, {});
+  }, Object.create(null));
   const defaultValue = isNil(options.default) ? null : options.default;
   const fieldAccessors = fields.map(field => getFieldAccessor(field));
 
-- 
2.43.0


From 54914986652ad13590a216ed8823fcf6c23cf9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:53 +0000
Subject: [PATCH 018/151] fix: unfold merged different groups and failed for
 keys like 'constructor'

---
 .../src/transforms/data/unfold.ts             | 45 +++++++++----------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/packages/vgrammar-core/src/transforms/data/unfold.ts b/packages/vgrammar-core/src/transforms/data/unfold.ts
index 02a40d6..ebf2765 100644
--- a/packages/vgrammar-core/src/transforms/data/unfold.ts
+++ b/packages/vgrammar-core/src/transforms/data/unfold.ts
@@ -15,9 +15,23 @@ export const transform = (options: UnfoldTransformOptions, upstreamData: any[])
   }
 
   const res: any[] = [];
-  const groups = {};
   const keyField = options.keyField;
   const valueField = options.valueField;
+  // keys can be any string, the names of `Object.prototype` and strings like integers included
+  const groups = new Map<string, { datum: any; values: Map<string, any[]> }>();
+  const addValue = (groupKey: string, datum: any, entry: any) => {
+    if (!groups.has(groupKey)) {
+      groups.set(groupKey, { datum, values: new Map() });
+    }
+    const values = groups.get(groupKey).values;
+    const key = `${entry[keyField]}`;
+
+    if (values.has(key)) {
+      values.get(key).push(entry[valueField]);
+    } else {
+      values.set(key, [entry[valueField]]);
+    }
+  };
   const aggregate = aggregateFuncs[options.aggregateType ?? 'sum'];
 
   if (options.groupBy) {
@@ -34,39 +48,20 @@ export const transform = (options: UnfoldTransformOptions, upstreamData: any[])
         keys.push(entry[field]);
       });
 
-      const groupKey = keys.join('~');
-
-      if (groups[groupKey]) {
-        if (groups[groupKey].values[entry[keyField]]) {
-          groups[groupKey].values[entry[keyField]].push(entry[valueField]);
-        } else {
-          groups[groupKey].values[entry[keyField]] = [entry[valueField]];
-        }
-      } else {
-        groups[groupKey] = { datum, values: { [entry[keyField]]: [entry[valueField]] } };
-      }
+      addValue(JSON.stringify(keys), datum, entry);
     });
   } else {
-    groups[0] = { datum: {}, values: {} };
+    groups.set('', { datum: {}, values: new Map() });
     upstreamData.forEach((entry: any) => {
       if (!entry) {
         return;
       }
 
-      if (groups[0].values[entry[keyField]]) {
-        groups[0].values[entry[keyField]].push(entry[valueField]);
-      } else {
-        groups[0].values[entry[keyField]] = [entry[valueField]];
-      }
+      addValue('', null, entry);
     });
   }
-  Object.keys(groups).forEach(groupKey => {
-    const datum = groups[groupKey].datum;
-    const values = groups[groupKey].values;
-
-    Object.keys(values).forEach(key => {
-      const rows = values[key];
-
+  groups.forEach(({ datum, values }) => {
+    values.forEach((rows, key) => {
       datum[key] = aggregate(rows as number[]);
     });
 
-- 
2.43.0


From 8066f730fc0d143470820655acf77508e94f0e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:53 +0000
Subject: [PATCH 019/151] fix: identifier transform returned its counter and
 not the rows

---
 packages/vgrammar-core/src/transforms/view/identifier.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/transforms/view/identifier.ts b/packages/vgrammar-core/src/transforms/view/identifier.ts
index 2efa5bf..14f39d6 100644
--- a/packages/vgrammar-core/src/transforms/view/identifier.ts
+++ b/packages/vgrammar-core/src/transforms/view/identifier.ts
@@ -28,5 +28,5 @@ export const transform = (options: IdentifierTransformOptions, upstreamData: any
   });
   view[COUNTER_NAME] = id;
 
-  return id;
+  return upstreamData;
 };
-- 
2.43.0


From 339e0a612bbd52e59b811557dc00d759dbd836de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:49 +0000
Subject: [PATCH 020/151] fix: contour lines were scaled by the wrong dimension
 and failed at saddles and uncrossed levels

---
 .../vgrammar-core/src/transforms/data/contour.ts | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/packages/vgrammar-core/src/transforms/data/contour.ts b/packages/vgrammar-core/src/transforms/data/contour.ts
index 1d15710..de84f25 100644
--- a/packages/vgrammar-core/src/transforms/data/contour.ts
+++ b/packages/vgrammar-core/src/transforms/data/contour.ts
@@ -76,12 +76,8 @@ const computeInteractionPoint = (
     });
   }
 
-  const thresholdFlag =
-    (thresholdCell[0] & 0b1000) +
-    (thresholdCell[1] & 0b0100) +
-    (thresholdCell[2] & 0b0010) +
-    (thresholdCell[3] & 0b0001);
-  if (thresholdFlag === 0b0110 || thresholdFlag === 0b1001) {
+  if (points.length === 4) {
+    // saddle cell, two lines cross it
     points[0].siblingPoint = points[1];
     points[1].siblingPoint = points[0];
     points[2].siblingPoint = points[3];
@@ -186,7 +182,7 @@ export const transform = (options: ContourTransformOption, upstreamData: any[])
 
     // connect points
     let processingPoints = points.slice();
-    do {
+    while (processingPoints.length > 0) {
       const connectedPoints = connectPoints(processingPoints[0], gridPoints);
       processingPoints.splice(0, 1);
       if (connectedPoints.length) {
@@ -198,14 +194,14 @@ export const transform = (options: ContourTransformOption, upstreamData: any[])
           [options.asPoints ?? 'points']: connectedPoints.map(point => {
             // normalize grid index into [0, 1]
             return {
-              x: point.point.x / row,
-              y: point.point.y / column
+              x: point.point.x / column,
+              y: point.point.y / row
             };
           })
         };
         contours.push(contour);
       }
-    } while (processingPoints.length > 0);
+    }
   });
 
   return contours;
-- 
2.43.0


From 7923e22503ef17b6a7de56c66f1ed59daf4d20d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:49 +0000
Subject: [PATCH 021/151] fix: bin put the maximum of the extent into an empty
 bin after the last one

---
 packages/vgrammar-core/src/transforms/data/bin.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/transforms/data/bin.ts b/packages/vgrammar-core/src/transforms/data/bin.ts
index f6a72de..61769a6 100644
--- a/packages/vgrammar-core/src/transforms/data/bin.ts
+++ b/packages/vgrammar-core/src/transforms/data/bin.ts
@@ -16,7 +16,9 @@ export const transform = (options: BinTransformOption, upstreamData: any[]) => {
   return upstreamData.map(upstreamDatum => {
     const datum = Object.assign({}, upstreamDatum);
     const value = upstreamDatum[options.field];
-    const binIndex = Math.floor((value - extent[0]) / binStep);
+    // the last bin is closed, the maximum of the extent belongs to it
+    const binIndex =
+      value === extent[1] ? Math.ceil(range / binStep) - 1 : Math.floor((value - extent[0]) / binStep);
     const binStart = extent[0] + binIndex * binStep;
     const binEnd = Math.min(extent[1], extent[0] + (binIndex + 1) * binStep);
     datum[options.as?.[0] ?? 'binStart'] = binStart;
-- 
2.43.0


From 96830fe636992f509186e19e71ef5e2eb7ec5ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:49 +0000
Subject: [PATCH 022/151] fix: kde overwrote its grid position by the density
 when no output field was named

---
 packages/vgrammar-core/src/transforms/data/kde.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/transforms/data/kde.ts b/packages/vgrammar-core/src/transforms/data/kde.ts
index 00a92c2..1792c8c 100644
--- a/packages/vgrammar-core/src/transforms/data/kde.ts
+++ b/packages/vgrammar-core/src/transforms/data/kde.ts
@@ -83,7 +83,7 @@ export const transform = (options: KDETransformOption, upstreamData: any[]) => {
       const value = Math.min(extent[0] + step * (index + 0.5), extent[1]);
       return {
         [as[0] ?? defaultAs[0]]: value,
-        [as[1] ?? defaultAs[0]]: kde1d({ x: value } as IPointLike, data, bandwidth)
+        [as[1] ?? defaultAs[1]]: kde1d({ x: value } as IPointLike, data, bandwidth)
       };
     });
 
-- 
2.43.0


From add06072af6ab6cf7232677c4927ac9bdcce031e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:49 +0000
Subject: [PATCH 023/151] fix: sampling overwrote its input rows, and mixed up
 frames of one row

---
 .../src/transforms/data/sampling.ts             | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/packages/vgrammar-core/src/transforms/data/sampling.ts b/packages/vgrammar-core/src/transforms/data/sampling.ts
index 6cc3c18..8d23cec 100644
--- a/packages/vgrammar-core/src/transforms/data/sampling.ts
+++ b/packages/vgrammar-core/src/transforms/data/sampling.ts
@@ -98,7 +98,8 @@ function sample(size: number, array: any[], isGroup: boolean, mode: 'min' | 'max
       frameValues.push(array[i + k][yfield]);
     }
     const value = samplerMap[mode](frameValues);
-    sampledIndex = Math.min(Math.round(i + frameValues.length / 2) || 0, len - 1);
+    // the aggregated value replaces the value of the row in the middle of the frame
+    sampledIndex = Math.min(Math.round(i + (frameValues.length - 1) / 2) || 0, len - 1);
     array[sampledIndex][yfield] = value;
     newIndices.push(sampledIndex);
   }
@@ -177,11 +178,13 @@ export const transform = (options: SampleTransformOptions, upstreamData: any[])
 
   // 处理数据source，source为采样前的原始数据
   if (upstreamData.length) {
+    // the aggregation modes write the aggregated values, the upstream rows should not be changed
+    const rows = sampler === lttb ? upstreamData : upstreamData.map(datum => Object.assign({}, datum));
     // 如果有groupBy，数据分组
-    const groups = {};
+    const groups = Object.create(null);
     if (groupBy) {
-      for (let i = 0, n = upstreamData.length; i < n; i++) {
-        const datum = upstreamData[i];
+      for (let i = 0, n = rows.length; i < n; i++) {
+        const datum = rows[i];
         const groupId = datum[groupBy];
         if (groups[groupId]) {
           groups[groupId].push({ [yfield]: datum[yfield], i });
@@ -204,16 +207,16 @@ export const transform = (options: SampleTransformOptions, upstreamData: any[])
         } else {
           const indices = sampler(size, group, true, yfield);
           rawIndice = rawIndice.concat(indices);
-          group.forEach((datum: any) => (upstreamData[datum.i][yfield] = datum[yfield]));
+          group.forEach((datum: any) => (rows[datum.i][yfield] = datum[yfield]));
         }
       });
 
       // 采样后，按照原始顺序排序
       rawIndice.sort((a, b) => a - b);
 
-      return rawIndice.map((index: number) => upstreamData[index]);
+      return rawIndice.map((index: number) => rows[index]);
     }
-    return sampler(size, upstreamData, false, yfield).map(index => upstreamData[index]);
+    return sampler(size, rows, false, yfield).map(index => rows[index]);
   }
 
   return [];
-- 
2.43.0


From f0a0ff5552524186767feace00ae1afe1a64e75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:49 +0000
Subject: [PATCH 024/151] fix: signals inside of array options of transforms
 were not resolved

---
 packages/vgrammar-core/src/parse/option.ts    | 8 ++++++--
 packages/vgrammar-core/src/parse/transform.ts | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/packages/vgrammar-core/src/parse/option.ts b/packages/vgrammar-core/src/parse/option.ts
index bce7cad..6e1b9a9 100644
--- a/packages/vgrammar-core/src/parse/option.ts
+++ b/packages/vgrammar-core/src/parse/option.ts
@@ -1,10 +1,14 @@
-import { isFunction, isObject } from '@visactor/vutils';
+import { isArray, isFunction, isObject } from '@visactor/vutils';
 import type { IGrammarBase } from '../types';
 import { isGrammar } from './util';
 
-export const parseOptionValue = (value: IGrammarBase | any, params: any) => {
+const isReference = (value: any) => isGrammar(value) || isFunction(value?.value);
+
+export const parseOptionValue = (value: IGrammarBase | any, params: any): any => {
   if (isGrammar(value)) {
     return value.output();
+  } else if (isArray(value)) {
+    return value.some(isReference) ? value.map(entry => parseOptionValue(entry, params)) : value;
   } else if (value && isObject<any>(value)) {
     if (isFunction(value.callback)) {
       return (datum: any) => {
diff --git a/packages/vgrammar-core/src/parse/transform.ts b/packages/vgrammar-core/src/parse/transform.ts
index d5e8c36..46882c6 100644
--- a/packages/vgrammar-core/src/parse/transform.ts
+++ b/packages/vgrammar-core/src/parse/transform.ts
@@ -69,7 +69,7 @@ const parseTransformOption = (key: string, transformSpecValue: TransformSpecValu
     return {
       references: values.reduce((res: any[], val: any) => {
         if (val.references) {
-          res.concat(val.references);
+          return res.concat(val.references);
         }
 
         return res;
-- 
2.43.0


From 14892d0cf2fde4d97e6d736527cf692c4d27073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:32 +0000
Subject: [PATCH 025/151] fix: dodge set NaN to channels which are only encoded
 when an element enters

---
 packages/vgrammar-core/src/transforms/mark/dodge.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages/vgrammar-core/src/transforms/mark/dodge.ts b/packages/vgrammar-core/src/transforms/mark/dodge.ts
index 7def24f..167143f 100644
--- a/packages/vgrammar-core/src/transforms/mark/dodge.ts
+++ b/packages/vgrammar-core/src/transforms/mark/dodge.ts
@@ -76,13 +76,15 @@ export const transform = (options: DodgeTransformOptions, upstreamData: IElement
 
     const markType = mark.markType;
 
+    // a channel which is not encoded in this evaluation keeps its dodged value
+
     if (markType === 'rect' || markType === 'interval' || markType === 'arc') {
       upstreamData.forEach(element => {
         const groupValue = getDodgeBy(element);
         const offset = offsetByGroup[groupValue];
         const attrs = element.getItemAttribute();
 
-        if (dodgeChannel === 'x') {
+        if (dodgeChannel === 'x' && !isNil(attrs.x)) {
           const x = isNil(attrs.width) && !isNil(attrs.x1) ? Math.min(attrs.x, attrs.x1) : attrs.x;
           const width = !isNil(attrs.width) ? attrs.width : isNil(attrs.x1) ? bandWidth : Math.abs(attrs.x1 - attrs.x);
           const newAttrs: any = { x: x + width / 2 + offset };
@@ -94,7 +96,7 @@ export const transform = (options: DodgeTransformOptions, upstreamData: IElement
           }
 
           element.setItemAttributes(newAttrs);
-        } else if (dodgeChannel === 'y') {
+        } else if (dodgeChannel === 'y' && !isNil(attrs.y)) {
           const y = isNil(attrs.height) && !isNil(attrs.y1) ? Math.min(attrs.y, attrs.y1) : attrs.y;
           const height = !isNil(attrs.height)
             ? attrs.height
@@ -118,7 +120,7 @@ export const transform = (options: DodgeTransformOptions, upstreamData: IElement
         const groupValue = getDodgeBy(element);
         const offset = offsetByGroup[groupValue];
 
-        if (dodgeChannel === 'x') {
+        if (dodgeChannel === 'x' && !isNil(element.getItemAttribute('x'))) {
           const x = element.getItemAttribute('x') + bandWidth / 2 + offset + size / 2;
 
           element.setItemAttributes({ x });
@@ -126,7 +128,7 @@ export const transform = (options: DodgeTransformOptions, upstreamData: IElement
           if (markType === 'rule') {
             element.setItemAttributes({ x1: x });
           }
-        } else if (dodgeChannel === 'y') {
+        } else if (dodgeChannel === 'y' && !isNil(element.getItemAttribute('y'))) {
           const y = element.getItemAttribute('y') + bandWidth / 2 + offset + size / 2;
 
           element.setItemAttributes({ y });
-- 
2.43.0


From 8618b259d3199bb49459b0c342fc2483cf45d645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:32 +0000
Subject: [PATCH 026/151] fix: pie angles were NaN without asEndAngle, for
 missing values and for a zero total

---
 .../vgrammar-core/src/transforms/data/pie.ts     | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/packages/vgrammar-core/src/transforms/data/pie.ts b/packages/vgrammar-core/src/transforms/data/pie.ts
index 8a31d8d..c3d3973 100644
--- a/packages/vgrammar-core/src/transforms/data/pie.ts
+++ b/packages/vgrammar-core/src/transforms/data/pie.ts
@@ -11,14 +11,16 @@ export const transform = (options: PieTransformOption, upstreamData: any[]) => {
 
   const { asStartAngle, asEndAngle, asMiddleAngle, asRadian, asRatio, asQuadrant, asK } = options;
 
-  const total = upstreamData.reduce((sum, d) => Number.parseFloat(d[field]) + sum, 0);
-  const max = upstreamData.reduce((m, d) => Math.max(m, Number.parseFloat(d[field])), -Infinity);
+  // missing values take no part of the angle
+  const getValue = (datum: any) => Number.parseFloat(datum[field]) || 0;
+  const total = upstreamData.reduce((sum, d) => getValue(d) + sum, 0);
+  const max = upstreamData.reduce((m, d) => Math.max(m, getValue(d)), -Infinity);
 
   const intervalAngle = endAngle - startAngle;
   let lastAngle = startAngle;
   const data = upstreamData.map(originDatum => {
     const datum = Object.assign({}, originDatum);
-    const ratio = Number.parseFloat(datum[field]) / total;
+    const ratio = total ? getValue(datum) / total : 0;
     const radian = ratio * intervalAngle;
 
     asRatio && (datum[asRatio] = ratio);
@@ -27,11 +29,13 @@ export const transform = (options: PieTransformOption, upstreamData: any[]) => {
     asMiddleAngle && (datum[asMiddleAngle] = lastAngle + radian / 2);
     asRadian && (datum[asRadian] = radian);
     asQuadrant && (datum[asQuadrant] = computeQuadrant(lastAngle + radian / 2));
-    asK && (datum[asK] = Number.parseFloat(datum[field]) / max);
+    asK && (datum[asK] = max ? getValue(datum) / max : 0);
 
-    lastAngle = datum[asEndAngle];
+    lastAngle += radian;
     return datum;
   });
-  data[data.length - 1][asEndAngle] = endAngle;
+  if (asEndAngle && total) {
+    data[data.length - 1][asEndAngle] = endAngle;
+  }
   return data;
 };
-- 
2.43.0


From 046cb282ff27bbb2d9ae11bdce29fcfa4d993bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:32 +0000
Subject: [PATCH 027/151] fix: funnel reach ratio was NaN after a missing value

---
 packages/vgrammar-core/src/transforms/data/funnel.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/transforms/data/funnel.ts b/packages/vgrammar-core/src/transforms/data/funnel.ts
index 67c872b..478e149 100644
--- a/packages/vgrammar-core/src/transforms/data/funnel.ts
+++ b/packages/vgrammar-core/src/transforms/data/funnel.ts
@@ -30,7 +30,7 @@ export const transform = (options: FunnelTransformOption, upstreamData: any[]) =
 
     const transformRatio = !isValidNumber(nextValue * currentValue) ? null : nextValue / currentValue;
 
-    const reachRatio = !isValidNumber(currentValue * currentValue) ? null : currentValue / lastValue;
+    const reachRatio = !isValidNumber(currentValue * lastValue) ? null : currentValue / lastValue;
 
     asLastValue && (datum[asLastValue] = lastValue);
     asNextValue && (datum[asNextValue] = nextValue);
-- 
2.43.0


From 34d73acaba84bdc0b1edca68650a879ac43a2b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:42 +0000
Subject: [PATCH 028/151] fix: mark overlap in two directions never hid
 anything and compared with hidden elements

---
 .../src/transforms/mark/mark-overlap.ts       | 47 ++++++++++---------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/packages/vgrammar-core/src/transforms/mark/mark-overlap.ts b/packages/vgrammar-core/src/transforms/mark/mark-overlap.ts
index 98f9400..a5db6b8 100644
--- a/packages/vgrammar-core/src/transforms/mark/mark-overlap.ts
+++ b/packages/vgrammar-core/src/transforms/mark/mark-overlap.ts
@@ -32,16 +32,17 @@ function overlapX(elements: IElement[], delta: number, deltaMul: number, useRadi
       if (useDeltaMul) {
         itemDelta = (r + lastR) * deltaMul;
       }
-      if (Math.abs(currentX - lastX) < itemDelta + lastR + r) {
-        if (!element.getGraphicAttribute('forceShow')) {
-          element.setGraphicAttribute(MARK_OVERLAP_HIDE_KEY, true);
-          element.setGraphicAttribute('visible', false);
-        }
+      if (
+        Math.abs(currentX - lastX) < itemDelta + lastR + r &&
+        !element.getGraphicAttribute('forceShow')
+      ) {
+        element.setGraphicAttribute(MARK_OVERLAP_HIDE_KEY, true);
+        element.setGraphicAttribute('visible', false);
       } else {
+        // only elements which are shown can be overlapped
         lastX = currentX;
+        lastR = r;
       }
-
-      lastR = r;
     });
   }
 }
@@ -64,23 +65,24 @@ function overlapY(elements: IElement[], delta: number, deltaMul: number, useRadi
       if (useDeltaMul) {
         itemDelta = (r + lastR) * deltaMul;
       }
-      if (Math.abs(currentY - lastY) < itemDelta + lastR + r) {
-        if (!element.getGraphicAttribute('forceShow')) {
-          element.setGraphicAttribute(MARK_OVERLAP_HIDE_KEY, true);
-          element.setGraphicAttribute('visible', false);
-        }
+      if (
+        Math.abs(currentY - lastY) < itemDelta + lastR + r &&
+        !element.getGraphicAttribute('forceShow')
+      ) {
+        element.setGraphicAttribute(MARK_OVERLAP_HIDE_KEY, true);
+        element.setGraphicAttribute('visible', false);
       } else {
+        // only elements which are shown can be overlapped
         lastY = currentY;
+        lastR = r;
       }
-
-      lastR = r;
     });
   }
 }
 
 function overlapXY(elements: IElement[], delta: number, deltaMul: number, useRadius: boolean) {
   if (useRadius) {
-    const lastX = -Infinity;
+    let lastX = -Infinity;
     let lastY = -Infinity;
     let lastR = 0;
     let dis = 0;
@@ -101,16 +103,15 @@ function overlapXY(elements: IElement[], delta: number, deltaMul: number, useRad
         itemDelta = (r + lastR) * deltaMul;
       }
       dis = (lastX - currentX) ** 2 + (lastY - currentY) ** 2;
-      if (dis < (itemDelta + lastR + r) ** 2) {
-        if (!element.getGraphicAttribute('forceShow')) {
-          element.setGraphicAttribute(MARK_OVERLAP_HIDE_KEY, true);
-          element.setGraphicAttribute('visible', false);
-        }
+      if (dis < (itemDelta + lastR + r) ** 2 && !element.getGraphicAttribute('forceShow')) {
+        element.setGraphicAttribute(MARK_OVERLAP_HIDE_KEY, true);
+        element.setGraphicAttribute('visible', false);
       } else {
+        // only elements which are shown can be overlapped
+        lastX = currentX;
         lastY = currentY;
+        lastR = r;
       }
-
-      lastR = r;
     });
   }
 }
@@ -166,7 +167,7 @@ export const transform = (options: MarkOverlapTransformOptions, upstreamData: IE
       }
 
       return res;
-    }, {});
+    }, Object.create(null));
 
     Object.keys(map).forEach(key => {
       handleOverlap(map[key]);
-- 
2.43.0


From f61d44cae535e382056424b3e109b27c96f40294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:42 +0000
Subject: [PATCH 029/151] fix: jitter and symmetry set NaN to channels which
 are only encoded when an element enters

---
 packages/vgrammar-core/src/transforms/mark/jitter.ts   | 8 ++++++++
 packages/vgrammar-core/src/transforms/mark/symmetry.ts | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/packages/vgrammar-core/src/transforms/mark/jitter.ts b/packages/vgrammar-core/src/transforms/mark/jitter.ts
index d8b485d..e9f9a68 100644
--- a/packages/vgrammar-core/src/transforms/mark/jitter.ts
+++ b/packages/vgrammar-core/src/transforms/mark/jitter.ts
@@ -20,12 +20,20 @@ const jitterByChannel = (options: JitterTransformOptions, upstreamData: IElement
     const length = upstreamData.length;
 
     upstreamData.forEach((element, index) => {
+      if (isNil(element.getItemAttribute(channel))) {
+        return;
+      }
       element.setItemAttributes({ [channel]: domain[0] + (domain[1] - domain[0]) * random(index, length) });
     });
   } else {
     const length = upstreamData.length;
     upstreamData.forEach((element, index) => {
       const val = element.getItemAttribute(channel);
+
+      // a channel which is not encoded in this evaluation keeps its value
+      if (isNil(val)) {
+        return;
+      }
       const domain = [val - ratio * bandSize, val + ratio * bandSize];
       element.setItemAttributes({ [channel]: domain[0] + (domain[1] - domain[0]) * random(index, length) });
     });
diff --git a/packages/vgrammar-core/src/transforms/mark/symmetry.ts b/packages/vgrammar-core/src/transforms/mark/symmetry.ts
index 3c83435..5164dce 100644
--- a/packages/vgrammar-core/src/transforms/mark/symmetry.ts
+++ b/packages/vgrammar-core/src/transforms/mark/symmetry.ts
@@ -11,6 +11,10 @@ const symmetryByChannel = (upstreamData: IElement[], channel: 'x' | 'y', align?:
 
   if (isValidNumber(maxMid)) {
     upstreamData.forEach((el, index) => {
+      // a channel which is not encoded in this evaluation keeps its value
+      if (!isValidNumber(middleValues[index])) {
+        return;
+      }
       const offset = maxMid - middleValues[index];
       if (hasRangeValue) {
         el.setItemAttributes({
-- 
2.43.0


From 4e0b9e7ea6cceb6dcb6e48a553986fc6478aad77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:55 +0000
Subject: [PATCH 030/151] fix: access paths took the character after an escape
 literally and quotes inside of names as quotation

---
 packages/vgrammar-util/src/splitAccessPath.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/vgrammar-util/src/splitAccessPath.ts b/packages/vgrammar-util/src/splitAccessPath.ts
index 021b842..6e057c6 100644
--- a/packages/vgrammar-util/src/splitAccessPath.ts
+++ b/packages/vgrammar-util/src/splitAccessPath.ts
@@ -31,8 +31,8 @@ export const splitAccessPath = (p: string) => {
   for (i = 0, j = 0; j < n; j += 1) {
     c = p[j];
     if (c === '\\') {
-      s += p.substring(i, j);
-      s += p.substring(++j, ++j);
+      // the escaped character is taken literally, the character after it is not
+      s += p.substring(i, j++);
       i = j;
     } else if (c === q) {
       push();
@@ -40,11 +40,11 @@ export const splitAccessPath = (p: string) => {
       b = -1;
     } else if (q) {
       continue;
-    } else if (i === b && c === '"') {
+    } else if (j === b && c === '"') {
       i = j + 1;
       q = c;
       // eslint-disable-next-line quotes
-    } else if (i === b && c === "'") {
+    } else if (j === b && c === "'") {
       i = j + 1;
       q = c;
     } else if (c === '.' && !b) {
-- 
2.43.0


From a0f1b943e11bf3212550bb975c698598fe2c8dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:44 +0000
Subject: [PATCH 031/151] fix: converting by a coordinate without transforms
 crashed

---
 packages/vgrammar-coordinate/src/base.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-coordinate/src/base.ts b/packages/vgrammar-coordinate/src/base.ts
index a7f48ab..2c3b4f2 100644
--- a/packages/vgrammar-coordinate/src/base.ts
+++ b/packages/vgrammar-coordinate/src/base.ts
@@ -20,8 +20,8 @@ export abstract class Coordinate implements IBaseCoordinate {
   /** coordinate transforms, such as translate / rotate / scale...  */
   protected transforms: CoordinateTransform[] = [];
   /** compute all coordinate transforms with single matrix */
-  protected convertMatrix: IMatrix | null;
-  protected invertMatrix: IMatrix | null;
+  protected convertMatrix: IMatrix | null = new Matrix();
+  protected invertMatrix: IMatrix | null = new Matrix();
 
   /** set start point */
   start(): IPointLike;
-- 
2.43.0


From 194fc881ed49f65480cda691b16a03975a2740fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:44 +0000
Subject: [PATCH 032/151] fix: outer radius of a polar coordinate was wrong for
 a descending radius array

---
 packages/vgrammar-coordinate/src/polar.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-coordinate/src/polar.ts b/packages/vgrammar-coordinate/src/polar.ts
index 2e7c407..29ef36e 100644
--- a/packages/vgrammar-coordinate/src/polar.ts
+++ b/packages/vgrammar-coordinate/src/polar.ts
@@ -106,7 +106,7 @@ export class PolarCoordinate extends Coordinate implements IPolarCoordinate {
     this._isUserRadius = true;
     if (Array.isArray(radius)) {
       this.innerRadius = Math.min(radius[0], radius[1]);
-      this.outerRadius = Math.max(radius[1], radius[1]);
+      this.outerRadius = Math.max(radius[0], radius[1]);
     } else {
       this.innerRadius = Math.min(radius, outerRadius);
       this.outerRadius = Math.max(radius, outerRadius);
-- 
2.43.0


From 03c9842403375468afbf3580bd54528344646a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:44 +0000
Subject: [PATCH 033/151] fix: coordinates kept start, end and origin which had
 been withdrawn

---
 packages/vgrammar-core/src/view/coordinate.ts | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/packages/vgrammar-core/src/view/coordinate.ts b/packages/vgrammar-core/src/view/coordinate.ts
index 3c8e9ee..7bb67c3 100644
--- a/packages/vgrammar-core/src/view/coordinate.ts
+++ b/packages/vgrammar-core/src/view/coordinate.ts
@@ -37,9 +37,8 @@ export class Coordinate extends GrammarBase implements ICoordinate {
   }
 
   evaluate(upstream: any, parameters: any) {
-    if (!this.coordinate || this.coordinate.type !== this.spec.type) {
-      this.coordinate = createCoordinate(this.spec.type);
-    }
+    // a new coordinate keeps nothing of a start, end or origin which is no longer specified
+    this.coordinate = createCoordinate(this.spec.type);
     configureCoordinate(this.spec as CoordinateSpec, this.coordinate, parameters);
     return this;
   }
-- 
2.43.0


From 1386f340ea29ae2a322f9e3615902a0d775773d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:44 +0000
Subject: [PATCH 034/151] fix: marks of a coordinate moved to NaN when their
 position was not encoded again

---
 packages/vgrammar-core/src/graph/element.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/element.ts b/packages/vgrammar-core/src/graph/element.ts
index b460d17..a64ac03 100644
--- a/packages/vgrammar-core/src/graph/element.ts
+++ b/packages/vgrammar-core/src/graph/element.ts
@@ -324,8 +324,11 @@ export class Element implements IElement {
 
     items.forEach(item => {
       const nextAttrs = item.nextAttrs;
-      const convertedPoint: IPointLike = coord.convert(nextAttrs);
-      Object.assign(nextAttrs, convertedPoint);
+      // the position may not be encoded this time, it is already converted then
+      if (['x', 'y', 'r', 'theta'].some(channel => !isNil(nextAttrs[channel]))) {
+        const convertedPoint: IPointLike = coord.convert(nextAttrs);
+        Object.assign(nextAttrs, convertedPoint);
+      }
     });
   }
 
-- 
2.43.0


From 5f9d44a541c1e3f275a7c3779dfb1beec903b2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:44 +0000
Subject: [PATCH 035/151] fix: lines and areas lost all polar positions but the
 first

---
 packages/vgrammar-core/src/graph/attributes/helpers.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/attributes/helpers.ts b/packages/vgrammar-core/src/graph/attributes/helpers.ts
index 01c555b..4e4e855 100644
--- a/packages/vgrammar-core/src/graph/attributes/helpers.ts
+++ b/packages/vgrammar-core/src/graph/attributes/helpers.ts
@@ -131,7 +131,7 @@ export function getLargeSymbolsPoints(
 }
 
 export function isPositionOrSizeChannel(type: string, channel: string) {
-  if (['x', 'y', 'dx', 'dy'].includes(channel)) {
+  if (['x', 'y', 'dx', 'dy', 'r', 'theta'].includes(channel)) {
     return true;
   }
 
@@ -148,9 +148,9 @@ export function isPositionOrSizeChannel(type: string, channel: string) {
     case GrammarMarkType.line:
       return channel === 'defined';
     case GrammarMarkType.area:
-      return ['x1', 'y1', 'defined'].includes(channel);
+      return ['x1', 'y1', 'r1', 'theta1', 'defined'].includes(channel);
     case GrammarMarkType.rule:
-      return ['x1', 'y1'].includes(channel);
+      return ['x1', 'y1', 'r1', 'theta1'].includes(channel);
     case GrammarMarkType.symbol:
       return channel === 'size';
     case GrammarMarkType.polygon:
-- 
2.43.0


From c23201ce9832aed44a4498c40c7d2274b77dbc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:44 +0000
Subject: [PATCH 036/151] fix: the coordinate given out before its first
 evaluation is the one which is configured

---
 packages/vgrammar-core/src/view/coordinate.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/view/coordinate.ts b/packages/vgrammar-core/src/view/coordinate.ts
index 7bb67c3..c2e624d 100644
--- a/packages/vgrammar-core/src/view/coordinate.ts
+++ b/packages/vgrammar-core/src/view/coordinate.ts
@@ -15,6 +15,9 @@ export class Coordinate extends GrammarBase implements ICoordinate {
 
   private coordinate: IBaseCoordinate;
 
+  /** whether the current coordinate has been configured before */
+  private configured: boolean = false;
+
   constructor(view: IView, coordinateType: CoordinateType) {
     super(view);
     this.spec.type = coordinateType;
@@ -38,7 +41,10 @@ export class Coordinate extends GrammarBase implements ICoordinate {
 
   evaluate(upstream: any, parameters: any) {
     // a new coordinate keeps nothing of a start, end or origin which is no longer specified
-    this.coordinate = createCoordinate(this.spec.type);
+    if (!this.coordinate || this.configured || this.coordinate.type !== this.spec.type) {
+      this.coordinate = createCoordinate(this.spec.type);
+    }
+    this.configured = true;
     configureCoordinate(this.spec as CoordinateSpec, this.coordinate, parameters);
     return this;
   }
@@ -84,6 +90,7 @@ export class Coordinate extends GrammarBase implements ICoordinate {
       return this;
     }
     this.coordinate = grammar.output();
+    this.configured = true;
     return this;
   }
 
-- 
2.43.0


From c67b4b0ad7d1c35dd7083dd171d5a98cb79584ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:07 +0000
Subject: [PATCH 037/151] fix: trees with a link width per depth were shifted
 by the first width and used each width one level too high

---
 packages/vgrammar-hierarchy/src/tree/tree.ts | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/packages/vgrammar-hierarchy/src/tree/tree.ts b/packages/vgrammar-hierarchy/src/tree/tree.ts
index bfc7185..f4ce8b8 100644
--- a/packages/vgrammar-hierarchy/src/tree/tree.ts
+++ b/packages/vgrammar-hierarchy/src/tree/tree.ts
@@ -245,11 +245,15 @@ export function tidyTree(
       return node.depth * linkWidth;
     };
   } else if (isArray(linkWidth) && linkWidth.length) {
-    const sumed = linkWidth.reduce((res, entry, index) => {
-      res[index] = index === 0 ? entry : res[index - 1] + entry;
+    // the position of every depth, the root is not preceded by a link
+    const sumed = linkWidth.reduce(
+      (res, entry, index) => {
+        res[index + 1] = res[index] + entry;
 
-      return res;
-    }, []);
+        return res;
+      },
+      [0]
+    );
     getY = (node: TreeNodeElement) => {
       return sumed[node.depth] ?? sumed[sumed.length - 1];
     };
-- 
2.43.0


From d26e91a36d6899cee8c3de42282fff30b5b44705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:10 +0000
Subject: [PATCH 038/151] fix: circle packing sorted by the node key instead of
 the given order

---
 packages/vgrammar-hierarchy/src/circle-packing/layout.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-hierarchy/src/circle-packing/layout.ts b/packages/vgrammar-hierarchy/src/circle-packing/layout.ts
index 888b78a..61ef00f 100644
--- a/packages/vgrammar-hierarchy/src/circle-packing/layout.ts
+++ b/packages/vgrammar-hierarchy/src/circle-packing/layout.ts
@@ -126,7 +126,7 @@ export class CirclePackingLayout {
     };
     const { nodeSort, setRadius, padding, includeRoot } = this.options ?? {};
     if (nodeSort !== false) {
-      const sort = (isFunction(nodeSort) ? this.options.nodeKey : CirclePackingLayout.defaultOpionts.nodeSort) as (
+      const sort = (isFunction(nodeSort) ? nodeSort : CirclePackingLayout.defaultOpionts.nodeSort) as (
         a: CirclePackingNodeElement,
         b: CirclePackingNodeElement
       ) => number;
-- 
2.43.0


From 0f32221bf0f28e242d69989b2ff13573621462b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:11 +0000
Subject: [PATCH 039/151] fix: circle packing of values which are all zero was
 NaN

---
 packages/vgrammar-hierarchy/src/circle-packing/layout.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-hierarchy/src/circle-packing/layout.ts b/packages/vgrammar-hierarchy/src/circle-packing/layout.ts
index 61ef00f..6462bdd 100644
--- a/packages/vgrammar-hierarchy/src/circle-packing/layout.ts
+++ b/packages/vgrammar-hierarchy/src/circle-packing/layout.ts
@@ -150,7 +150,7 @@ export class CirclePackingLayout {
       if (padding) {
         eachAfter([root], packChildrenRandom(this._getPadding, root.radius / size, random));
       }
-      eachBefore([root], translateChild(size / (2 * root.radius), this._maxDepth));
+      eachBefore([root], translateChild(root.radius > 0 ? size / (2 * root.radius) : 1, this._maxDepth));
     }
 
     return includeRoot ? [root] : nodes;
-- 
2.43.0


From 9a1a7fa745a28438d53053ba02e3c1fd6ef31629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:06 +0000
Subject: [PATCH 040/151] fix: sankey positions were NaN for links without a
 value and when all values are zero

---
 packages/vgrammar-sankey/src/layout.ts | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/packages/vgrammar-sankey/src/layout.ts b/packages/vgrammar-sankey/src/layout.ts
index 16a1fe4..90caaea 100644
--- a/packages/vgrammar-sankey/src/layout.ts
+++ b/packages/vgrammar-sankey/src/layout.ts
@@ -674,7 +674,7 @@ export class SankeyLayout {
           return sum + (this.options.nodeGap as (node: SankeyNodeElement) => number)(node);
         }, 0);
 
-        return Math.min(val, (this._viewBox.height - sumGapY) / sumValue);
+        return sumValue > 0 ? Math.min(val, (this._viewBox.height - sumGapY) / sumValue) : val;
       }, Infinity);
     } else {
       const maxRowCount = columns.reduce((cnt: number, column: SankeyNodeElement[]) => {
@@ -699,7 +699,9 @@ export class SankeyLayout {
             return sum + node.value;
           }, 0);
 
-          return Math.min(val, (this._viewBox.height - ((column.length - 1) * calGapY + minNodeHeight)) / sumValue);
+          return sumValue > 0
+            ? Math.min(val, (this._viewBox.height - ((column.length - 1) * calGapY + minNodeHeight)) / sumValue)
+            : val;
         }, Infinity);
       }
     }
@@ -715,7 +717,7 @@ export class SankeyLayout {
           return forceNodeHeight;
         }
       : (node: SankeyNodeElement) => {
-          return Math.max(node.value * ky, 0);
+          return node.value ? Math.max(node.value * ky, 0) : 0;
         };
     const getLinkHeight = isNumber(this.options.linkHeight)
       ? () => this.options.linkHeight as number
@@ -728,7 +730,7 @@ export class SankeyLayout {
       : (link: SankeyLinkElement, sourceNode: SankeyNodeElement, sourceNodeHeight: number) => {
           return Math.min(
             Math.max(
-              sourceNode.value ? sourceNodeHeight * linkClampe(link.value / sourceNode.value) : 0,
+              sourceNode.value ? sourceNodeHeight * linkClampe(toValidNumber(link.value) / sourceNode.value) : 0,
               minLinkHeight,
               0
             ),
@@ -864,7 +866,7 @@ export class SankeyLayout {
 
         for (let k = 0, linkLen = target.targetLinks.length; k < linkLen; k++) {
           const link = target.targetLinks[k];
-          const v = link.value * (target.layer - this._nodeMap[link.source].layer);
+          const v = toValidNumber(link.value) * (target.layer - this._nodeMap[link.source].layer);
           y += this.targetTop(this._nodeMap[link.source], target) * v;
           w += v;
         }
@@ -894,7 +896,7 @@ export class SankeyLayout {
 
         for (let k = 0, linkLen = source.sourceLinks.length; k < linkLen; k++) {
           const link = source.sourceLinks[k];
-          const v = link.value * (this._nodeMap[link.target].layer - source.layer);
+          const v = toValidNumber(link.value) * (this._nodeMap[link.target].layer - source.layer);
           y += this.sourceTop(source, this._nodeMap[link.target]) * v;
           w += v;
         }
-- 
2.43.0


From 08998f15cfe1b302a99700522ac004e2d89534f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:09 +0000
Subject: [PATCH 041/151] fix: sankey crashed for links without source or
 target

---
 packages/vgrammar-sankey/src/layout.ts | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/packages/vgrammar-sankey/src/layout.ts b/packages/vgrammar-sankey/src/layout.ts
index 90caaea..6357c4c 100644
--- a/packages/vgrammar-sankey/src/layout.ts
+++ b/packages/vgrammar-sankey/src/layout.ts
@@ -39,7 +39,7 @@ function center(node: SankeyNodeElement, maxDepth: number, nodeMap: Record<strin
   return node.targetLinks.length
     ? node.depth
     : node.sourceLinks.length
-    ? minInArray(node.sourceLinks.map(link => nodeMap[link.target].depth)) - 1
+    ? minInArray(node.sourceLinks.map(link => nodeMap[link.target]?.depth ?? node.depth + 1)) - 1
     : 0;
 }
 
@@ -410,7 +410,10 @@ export class SankeyLayout {
 
     if (this.options.divideNodeValueToLink && invalidLinks.length) {
       invalidLinks.forEach(link => {
-        const values = [calcDivideValue(nodeMap[link.source]), calcDivideValue(nodeMap[link.target], true)].filter(
+        const values = [
+          nodeMap[link.source] ? calcDivideValue(nodeMap[link.source]) : null,
+          nodeMap[link.target] ? calcDivideValue(nodeMap[link.target], true) : null
+        ].filter(
           entry => !isNil(entry)
         );
 
@@ -866,6 +869,9 @@ export class SankeyLayout {
 
         for (let k = 0, linkLen = target.targetLinks.length; k < linkLen; k++) {
           const link = target.targetLinks[k];
+          if (isNil(link.source)) {
+            continue;
+          }
           const v = toValidNumber(link.value) * (target.layer - this._nodeMap[link.source].layer);
           y += this.targetTop(this._nodeMap[link.source], target) * v;
           w += v;
@@ -896,6 +902,9 @@ export class SankeyLayout {
 
         for (let k = 0, linkLen = source.sourceLinks.length; k < linkLen; k++) {
           const link = source.sourceLinks[k];
+          if (isNil(link.target)) {
+            continue;
+          }
           const v = toValidNumber(link.value) * (this._nodeMap[link.target].layer - source.layer);
           y += this.sourceTop(source, this._nodeMap[link.target]) * v;
           w += v;
@@ -1078,11 +1087,11 @@ export class SankeyLayout {
 
       for (let j = 0, linkLen = targetLinks.length; j < linkLen; j++) {
         const link = targetLinks[j];
-        this._nodeMap[link.source].sourceLinks.sort(this._ascendingTargetBreadth);
+        this._nodeMap[link.source]?.sourceLinks.sort(this._ascendingTargetBreadth);
       }
       for (let j = 0, linkLen = sourceLinks.length; j < linkLen; j++) {
         const link = sourceLinks[j];
-        this._nodeMap[link.target].targetLinks.sort(this._ascendingSourceBreadth);
+        this._nodeMap[link.target]?.targetLinks.sort(this._ascendingSourceBreadth);
       }
     }
   }
-- 
2.43.0


From 60ad6c4afca592febf486bed38c71774f5249b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:11 +0000
Subject: [PATCH 042/151] fix: sankey crashed for nodes named like members of
 objects, such as 'constructor'

---
 packages/vgrammar-sankey/src/layout.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/packages/vgrammar-sankey/src/layout.ts b/packages/vgrammar-sankey/src/layout.ts
index 6357c4c..837c4ad 100644
--- a/packages/vgrammar-sankey/src/layout.ts
+++ b/packages/vgrammar-sankey/src/layout.ts
@@ -245,8 +245,8 @@ export class SankeyLayout {
   computeHierarchicNodeLinks(originalNodes: HierarchyNodeDatum[]) {
     const nodes: SankeyNodeElement[] = [];
     const links: SankeyLinkElement[] = [];
-    const nodeMap: Record<string | number, SankeyNodeElement> = {};
-    const linkMap: Record<string | number, SankeyLinkElement> = {};
+    const nodeMap: Record<string | number, SankeyNodeElement> = Object.create(null);
+    const linkMap: Record<string | number, SankeyLinkElement> = Object.create(null);
     const originalLinks: (SankeyLinkDatum & { parents?: SankeyNodeElement[] })[] = [];
 
     calculateNodeValue(originalNodes);
@@ -329,7 +329,7 @@ export class SankeyLayout {
   computeSourceTargetNodeLinks(data: { nodes?: SankeyNodeDatum[]; links: SankeyLinkDatum[] }) {
     const nodes: SankeyNodeElement[] = [];
     const links: SankeyLinkElement[] = [];
-    const nodeMap: Record<string | number, SankeyNodeElement> = {};
+    const nodeMap: Record<string | number, SankeyNodeElement> = Object.create(null);
 
     if (data.nodes) {
       data.nodes.forEach((node, index) => {
@@ -483,7 +483,7 @@ export class SankeyLayout {
 
     while (current.length && depth < n) {
       next = [];
-      nextMap = {};
+      nextMap = Object.create(null);
 
       for (let i = 0, curLen = current.length; i < curLen; i++) {
         const node = current[i];
@@ -526,7 +526,7 @@ export class SankeyLayout {
 
     while (current.length && depth < n) {
       next = [];
-      nextMap = {};
+      nextMap = Object.create(null);
       for (let i = 0, curLen = current.length; i < curLen; i++) {
         const node = current[i];
 
-- 
2.43.0


From e65452193b5c6c611d728e291406ad61b68d10a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:14 +0000
Subject: [PATCH 043/151] fix: sankey positions were NaN for a single layer of
 nodes

---
 packages/vgrammar-sankey/src/layout.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-sankey/src/layout.ts b/packages/vgrammar-sankey/src/layout.ts
index 837c4ad..699546c 100644
--- a/packages/vgrammar-sankey/src/layout.ts
+++ b/packages/vgrammar-sankey/src/layout.ts
@@ -562,7 +562,7 @@ export class SankeyLayout {
 
     if (isString(nodeWidthOption)) {
       const ratio = clamp(parseFloat(nodeWidthOption.replace('%', '')) / 100, 0, 1);
-      let stepWidth = width / (this._maxDepth - 1 + ratio);
+      let stepWidth = this._maxDepth > 1 || ratio > 0 ? width / (this._maxDepth - 1 + ratio) : 0;
 
       if (minStepWidth > 0) {
         stepWidth = Math.max(minStepWidth, stepWidth);
@@ -577,7 +577,7 @@ export class SankeyLayout {
       if (isNumber(linkWidthOption)) {
         linkWidth = linkWidthOption;
       } else if (isNil(linkWidthOption)) {
-        let stepWidth = (width - nodeWidthOption) / (this._maxDepth - 1);
+        let stepWidth = this._maxDepth > 1 ? (width - nodeWidthOption) / (this._maxDepth - 1) : nodeWidthOption;
 
         if (minStepWidth > 0) {
           stepWidth = Math.max(minStepWidth, stepWidth);
-- 
2.43.0


From cf762c5b01acabd552b7df029c307952c30bfc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:16 +0000
Subject: [PATCH 044/151] fix: sankey lost nodes without a customized layer and
 crashed when sorting with an empty layer

---
 packages/vgrammar-sankey/src/layout.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-sankey/src/layout.ts b/packages/vgrammar-sankey/src/layout.ts
index 699546c..7273e75 100644
--- a/packages/vgrammar-sankey/src/layout.ts
+++ b/packages/vgrammar-sankey/src/layout.ts
@@ -115,7 +115,7 @@ export class SankeyLayout {
     this._logger = Logger.getInstance();
     this._alignFunc = isFunction(this.options.setNodeLayer)
       ? (node: SankeyNodeElement) => {
-          return this.options.setNodeLayer(node.datum);
+          return this.options.setNodeLayer(node.datum) ?? node.depth;
         }
       : alignFunctions[this.options.nodeAlign];
   }
@@ -613,7 +613,7 @@ export class SankeyLayout {
     }
     if (this.options.nodeSortBy) {
       for (let j = 0, colLen = columns.length; j < colLen; j++) {
-        columns[j].sort(this.options.nodeSortBy);
+        columns[j]?.sort(this.options.nodeSortBy);
       }
     }
 
-- 
2.43.0


From b41f5aaa475c7d6ae9528838254c6ac0c33c8d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:19 +0000
Subject: [PATCH 045/151] fix: inverse sankey was moved out of view boxes which
 do not start at zero

---
 packages/vgrammar-sankey/src/layout.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/packages/vgrammar-sankey/src/layout.ts b/packages/vgrammar-sankey/src/layout.ts
index 7273e75..d69235b 100644
--- a/packages/vgrammar-sankey/src/layout.ts
+++ b/packages/vgrammar-sankey/src/layout.ts
@@ -179,7 +179,7 @@ export class SankeyLayout {
 
     if (isVertical(this.options.direction)) {
       if (this.options.inverse) {
-        const viewY1 = this._viewBox.x1;
+        const viewY1 = this._viewBox.x0 + this._viewBox.x1;
         nodes.forEach(node => {
           const { y0, y1, x0, x1 } = node;
 
@@ -221,13 +221,13 @@ export class SankeyLayout {
     } else if (this.options.inverse) {
       nodes.forEach(node => {
         const { x0, x1 } = node;
-        node.x0 = viewBox.x1 - x1;
-        node.x1 = viewBox.x1 - x0;
+        node.x0 = viewBox.x0 + viewBox.x1 - x1;
+        node.x1 = viewBox.x0 + viewBox.x1 - x0;
       });
 
       links.forEach(link => {
-        link.x0 = viewBox.x1 - link.x0;
-        link.x1 = viewBox.x1 - link.x1;
+        link.x0 = viewBox.x0 + viewBox.x1 - link.x0;
+        link.x1 = viewBox.x0 + viewBox.x1 - link.x1;
       });
     }
 
-- 
2.43.0


From f5956b47ba78574397d831c880dbb399bbb0ef4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:21 +0000
Subject: [PATCH 046/151] fix: sankey ignored link widths given by a function
 and the width of all nodes of a layer but the last

---
 packages/vgrammar-sankey/src/layout.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/vgrammar-sankey/src/layout.ts b/packages/vgrammar-sankey/src/layout.ts
index d69235b..7081f4e 100644
--- a/packages/vgrammar-sankey/src/layout.ts
+++ b/packages/vgrammar-sankey/src/layout.ts
@@ -585,7 +585,7 @@ export class SankeyLayout {
 
         linkWidth = stepWidth - nodeWidthOption;
       }
-      isEvenWidth = true;
+      isEvenWidth = !isFunction(linkWidthOption);
     } else if (isFunction(nodeWidthOption) && isNumber(linkWidthOption)) {
       linkWidth = linkWidthOption;
     }
@@ -617,7 +617,7 @@ export class SankeyLayout {
       }
     }
 
-    if (!isEvenWidth && isFunction(nodeWidthOption)) {
+    if (!isEvenWidth && (isFunction(nodeWidthOption) || isNumber(nodeWidthOption))) {
       let curLayerX = this._viewBox.x0;
       for (let i = 0; i < this._maxDepth; i++) {
         const column = columns[i];
@@ -626,11 +626,11 @@ export class SankeyLayout {
 
         for (let j = 0, colLen = column && column.length; j < colLen; j++) {
           const node = column[j];
-          const curNodeWidth = nodeWidthOption(node);
+          const curNodeWidth = isFunction(nodeWidthOption) ? nodeWidthOption(node) : nodeWidthOption;
           node.x0 = curLayerX;
           node.x1 = curLayerX + curNodeWidth;
 
-          maxNodeWidth = Math.max(nodeWidth, curNodeWidth);
+          maxNodeWidth = Math.max(maxNodeWidth, curNodeWidth);
 
           const sourceLinks = node.sourceLinks;
 
-- 
2.43.0


From f8cea4abd6aa0f17c2d4dfa0252ba42d3b963d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:24 +0000
Subject: [PATCH 047/151] fix: highlighting related nodes of a sankey visited
 nodes repeatedly (endlessly on cycles) and blurred isolated nodes

---
 packages/vgrammar-sankey/src/sankey-highlight.ts | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-sankey/src/sankey-highlight.ts b/packages/vgrammar-sankey/src/sankey-highlight.ts
index 0e6fbb7..012453c 100644
--- a/packages/vgrammar-sankey/src/sankey-highlight.ts
+++ b/packages/vgrammar-sankey/src/sankey-highlight.ts
@@ -133,7 +133,7 @@ export class SankeyHighlight extends BaseInteraction<SankeyHighlightOptions> {
 
     const datum = element.getDatum() as SankeyNodeElement;
     const allNodeElements = this._nodeMark?.elements ?? [];
-    const highlightNodes: (string | number)[] = [];
+    const highlightNodes: (string | number)[] = [datum.key];
     const allLinkElements = this._linkMark?.elements ?? [];
     const highlightLinks: SankeyLinkElement[] = [];
     const allNodes = allNodeElements.reduce((res, nodeEl) => {
@@ -145,9 +145,17 @@ export class SankeyHighlight extends BaseInteraction<SankeyHighlightOptions> {
     const downNodes: SankeyNodeElement[] = [datum];
     const upNodes: SankeyNodeElement[] = [datum];
 
+    const visitedDownNodes = new Set<SankeyNodeElement>();
+    const visitedUpNodes = new Set<SankeyNodeElement>();
+
     while (downNodes.length) {
       const first = downNodes.pop();
 
+      if (visitedDownNodes.has(first)) {
+        continue;
+      }
+      visitedDownNodes.add(first);
+
       if (first?.sourceLinks?.length) {
         first.sourceLinks.forEach(link => {
           highlightLinks.push(link);
@@ -162,6 +170,11 @@ export class SankeyHighlight extends BaseInteraction<SankeyHighlightOptions> {
     while (upNodes.length) {
       const first = upNodes.pop();
 
+      if (visitedUpNodes.has(first)) {
+        continue;
+      }
+      visitedUpNodes.add(first);
+
       if (first?.targetLinks?.length) {
         first.targetLinks.forEach(link => {
           highlightLinks.push(link);
-- 
2.43.0


From fa37591e6d1cdf53761f3cf9f89610ba056a595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:24 +0000
Subject: [PATCH 048/151] fix: sankey positions were NaN for links without
 source

---
 packages/vgrammar-sankey/src/layout.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/vgrammar-sankey/src/layout.ts b/packages/vgrammar-sankey/src/layout.ts
index 7081f4e..58c97e2 100644
--- a/packages/vgrammar-sankey/src/layout.ts
+++ b/packages/vgrammar-sankey/src/layout.ts
@@ -772,6 +772,12 @@ export class SankeyLayout {
           const link = node.sourceLinks[k];
           link.thickness = getLinkHeight(link, node, calculatedNodeHeight);
         }
+
+        node.targetLinks.forEach(link => {
+          if (isNil(link.source)) {
+            link.thickness = getLinkHeight(link, node, calculatedNodeHeight);
+          }
+        });
       }
 
       let deltaY = this._viewBox.y1 - y + (isMiddleGap ? gapY : 0);
-- 
2.43.0


From cb298d53fc9383f3ae6a295edade4d4b4a4d1572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:22 +0000
Subject: [PATCH 049/151] fix: sankey lost the flow into hierarchical nodes
 without a value below nodes with a value

---
 packages/vgrammar-sankey/src/hierarchy.ts | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/packages/vgrammar-sankey/src/hierarchy.ts b/packages/vgrammar-sankey/src/hierarchy.ts
index 7743334..4b287c4 100644
--- a/packages/vgrammar-sankey/src/hierarchy.ts
+++ b/packages/vgrammar-sankey/src/hierarchy.ts
@@ -4,12 +4,10 @@ import type { HierarchyNodeDatum } from './interface';
 export const calculateNodeValue = (subTree: HierarchyNodeDatum[]) => {
   let sum = 0;
   subTree.forEach((node, index) => {
+    const childrenValue = node.children?.length ? calculateNodeValue(node.children) : 0;
+
     if (isNil(node.value)) {
-      if (node.children?.length) {
-        node.value = calculateNodeValue(node.children);
-      } else {
-        node.value = 0;
-      }
+      node.value = childrenValue;
     }
 
     sum += Math.abs(node.value);
-- 
2.43.0


From 79e3eb92f6e9d1df2f4ace717b277c9b92a72782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:33 +0000
Subject: [PATCH 050/151] fix: sankey moved nodes out of the view or dropped
 gaps when the gaps are at the start or the end

---
 packages/vgrammar-sankey/src/layout.ts | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/packages/vgrammar-sankey/src/layout.ts b/packages/vgrammar-sankey/src/layout.ts
index 58c97e2..d05c861 100644
--- a/packages/vgrammar-sankey/src/layout.ts
+++ b/packages/vgrammar-sankey/src/layout.ts
@@ -654,6 +654,8 @@ export class SankeyLayout {
     let minNodeHeight = this.options.minNodeHeight ?? 0;
     const maxNodeHeight = this.options.maxNodeHeight ?? Infinity;
     let maxLinkHeight = this.options.maxLinkHeight;
+    const isStartGap = this.options.gapPosition === 'start';
+    const isMiddleGap = !isStartGap && this.options.gapPosition !== 'end';
 
     if (isNil(minNodeHeight) || minNodeHeight < minLinkHeight) {
       minNodeHeight = minLinkHeight;
@@ -702,15 +704,16 @@ export class SankeyLayout {
             return sum + node.value;
           }, 0);
 
+          // there is a gap before the first node too when the gaps are at the start
+          const gapCount = isStartGap ? column.length : column.length - 1;
+
           return sumValue > 0
-            ? Math.min(val, (this._viewBox.height - ((column.length - 1) * calGapY + minNodeHeight)) / sumValue)
+            ? Math.min(val, (this._viewBox.height - (gapCount * calGapY + minNodeHeight)) / sumValue)
             : val;
         }, Infinity);
       }
     }
 
-    const isStartGap = this.options.gapPosition === 'start';
-    const isMiddleGap = !isStartGap && this.options.gapPosition !== 'end';
     const getNodeHeight = isNumber(this.options.nodeHeight)
       ? (node: SankeyNodeElement) => this.options.nodeHeight as number
       : isFunction(this.options.nodeHeight)
@@ -824,6 +827,10 @@ export class SankeyLayout {
           }
         }
       } else if (deltaY < 0 && nodes.length > 1) {
+        if (!isStartGap && !isMiddleGap) {
+          // the gap after the last node gives way first
+          deltaY = Math.min(deltaY + gapY, 0);
+        }
         deltaY = deltaY / (nodes.length - 1);
 
         if (gapY + deltaY >= 0) {
-- 
2.43.0


From 3f88b27fce2477e4e5d1607f5d6d325396a6deed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:47 +0000
Subject: [PATCH 051/151] fix: limits, overhang below and vertical alignment of
 relative layouts used the wrong dimension

---
 packages/vgrammar-core/src/graph/layout/relative.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/layout/relative.ts b/packages/vgrammar-core/src/graph/layout/relative.ts
index edb4c49..e23057e 100644
--- a/packages/vgrammar-core/src/graph/layout/relative.ts
+++ b/packages/vgrammar-core/src/graph/layout/relative.ts
@@ -37,7 +37,7 @@ export const doRelativeLayout = (
   const viewBounds = parentLayoutBounds.clone();
   const groupLayoutSpec = group.getSpec().layout as MarkRelativeContainerSpec;
   const maxChildWidth = toPercent(groupLayoutSpec.maxChildWidth, viewBounds.width());
-  const maxChildHeight = toPercent(groupLayoutSpec.maxChildHeight, viewBounds.width());
+  const maxChildHeight = toPercent(groupLayoutSpec.maxChildHeight, viewBounds.height());
   let minDeltaX1 = 0;
   let minDeltaX2 = 0;
   let minDeltaY1 = 0;
@@ -88,7 +88,7 @@ export const doRelativeLayout = (
       viewBounds.x1 += Math.max(parentLayoutBounds.x1 - bounds.x1, 0) + padding.left;
       viewBounds.x2 -= Math.max(bounds.x2 - parentLayoutBounds.x2, 0) + padding.right;
       viewBounds.y1 += Math.max(parentLayoutBounds.y1 - bounds.y1, 0) + padding.top;
-      viewBounds.y2 -= Math.max(bounds.y2 - parentLayoutBounds.y2) + padding.bottom;
+      viewBounds.y2 -= Math.max(bounds.y2 - parentLayoutBounds.y2, 0) + padding.bottom;
     }
   });
 
@@ -178,7 +178,7 @@ export const doRelativeLayout = (
       if (layoutSpec.align) {
         const childHeight = bounds.height() + padding.top + padding.bottom;
 
-        if (childWidth < viewBounds.width()) {
+        if (childHeight < viewBounds.height()) {
           if (layoutSpec.align === 'middle') {
             child.layoutBounds.y1 = (viewBounds.y1 + viewBounds.y2) / 2 - childHeight / 2;
             child.layoutBounds.y2 = child.layoutBounds.y1 + childHeight;
@@ -200,7 +200,7 @@ export const doRelativeLayout = (
       curLeftX -= Math.max(parentLayoutBounds.x1 - bounds.x1, 0) + padding.left;
       curRightX -= Math.max(bounds.x2 - parentLayoutBounds.x2, 0) + padding.right;
       curTopY -= Math.max(parentLayoutBounds.y1 - bounds.y1, 0) + padding.top;
-      curBottomY += Math.max(bounds.y2 - parentLayoutBounds.y2) + padding.bottom;
+      curBottomY += Math.max(bounds.y2 - parentLayoutBounds.y2, 0) + padding.bottom;
     } else {
       child.layoutBounds = viewBounds;
     }
-- 
2.43.0


From 72e39eeb376fb005ff196efef7a4f2e0e4722bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:51 +0000
Subject: [PATCH 052/151] fix: layout crashed for groups without children and
 kept laying out removed children

---
 packages/vgrammar-core/src/view/View.ts  | 2 ++
 packages/vgrammar-core/src/view/group.ts | 7 -------
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/packages/vgrammar-core/src/view/View.ts b/packages/vgrammar-core/src/view/View.ts
index 2ed6171..55bad6b 100644
--- a/packages/vgrammar-core/src/view/View.ts
+++ b/packages/vgrammar-core/src/view/View.ts
@@ -725,6 +725,8 @@ export default class View extends EventEmitter implements IView {
   // --- Layout ---
 
   updateLayoutTag() {
+    // layouts of marks might be set or removed since the last layout
+    this._needBuildLayoutTree = true;
     this._layoutState = LayoutState.before;
     return this;
   }
diff --git a/packages/vgrammar-core/src/view/group.ts b/packages/vgrammar-core/src/view/group.ts
index 91bf370..06f4ded 100644
--- a/packages/vgrammar-core/src/view/group.ts
+++ b/packages/vgrammar-core/src/view/group.ts
@@ -47,13 +47,6 @@ export class GroupMark extends Mark implements IGroupMark {
   }
 
   updateLayoutChildren() {
-    if (!this.children.length) {
-      return this;
-    }
-    if (!this.layoutChildren) {
-      this.layoutChildren = [];
-    }
-
     this.layoutChildren = this.children.filter(child => child.needLayout());
 
     return this;
-- 
2.43.0


From bd1e8eed1fb122e1113dcb527cf477cd897b4b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:54 +0000
Subject: [PATCH 053/151] fix: layouts of groups without ids were skipped

---
 packages/vgrammar-core/src/view/View.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/view/View.ts b/packages/vgrammar-core/src/view/View.ts
index 55bad6b..48f3d66 100644
--- a/packages/vgrammar-core/src/view/View.ts
+++ b/packages/vgrammar-core/src/view/View.ts
@@ -741,10 +741,10 @@ export default class View extends EventEmitter implements IView {
 
     this.traverseMarkTree(
       (mark: IMark) => {
-        markMap[mark.id()] = true;
+        markMap[mark.uid] = true;
 
         if (mark.group) {
-          if (!markMap[mark.group.id()]) {
+          if (!markMap[mark.group.uid]) {
             rootMarks.push(mark);
           }
         } else {
-- 
2.43.0


From d923992d4311718d757d32c33e61020ba1271210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:58 +0000
Subject: [PATCH 054/151] fix: percent tracks, open ended items, outer gaps and
 out of range lines of grid layouts

---
 .../vgrammar-core/src/graph/layout/grid.ts    | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/layout/grid.ts b/packages/vgrammar-core/src/graph/layout/grid.ts
index 1bc1796..3c8bb21 100644
--- a/packages/vgrammar-core/src/graph/layout/grid.ts
+++ b/packages/vgrammar-core/src/graph/layout/grid.ts
@@ -20,7 +20,7 @@ function parseTemplate(template: number | string | 'auto', total: number) {
   } else if (trimmedTemplate.endsWith('%')) {
     const percent = parseFloat(trimmedTemplate.substring(0, trimmedTemplate.length - 1));
     if (isValidNumber(percent)) {
-      return percent * total;
+      return (percent * total) / 100;
     }
     return 0;
   }
@@ -38,11 +38,11 @@ function computeGrid(layout: MarkGridContainerSpec, width: number, height: numbe
   const columns = templateColumns.map(column => parseTemplate(column, width));
 
   // compute auto grid
-  const rowLeftSize = Math.max(0, rows.reduce((left, row) => left - row, height) - rows.length * rowGap);
+  const rowLeftSize = Math.max(0, rows.reduce((left, row) => left - row, height) - (rows.length - 1) * rowGap);
   const rowAuto = rowLeftSize / templateRows.filter(row => row === 'auto').length;
   const columnLeftSize = Math.max(
     0,
-    columns.reduce((left, column) => left - column, width) - columns.length * columnGap
+    columns.reduce((left, column) => left - column, width) - (columns.length - 1) * columnGap
   );
   const columnAuto = columnLeftSize / templateColumns.filter(column => column === 'auto').length;
   // accumulate grid size
@@ -71,20 +71,21 @@ function computeGrid(layout: MarkGridContainerSpec, width: number, height: numbe
   };
 }
 
+/** index of a grid line (starts at 1, negative values count from the end), count is the count of lines */
 function normalizeIndex(index: number, count: number) {
-  return Math.min(index < 0 ? index + count : index - 1, count);
+  return Math.max(0, Math.min(index < 0 ? index + count : index - 1, count - 1));
 }
 
 function normalizeStartEndIndex(start: number, end: number, count: number) {
   let finalStart = normalizeIndex(start, count);
   let finalEnd = normalizeIndex(end, count);
   if (!isValidNumber(start) && !isValidNumber(end)) {
-    finalStart = 1;
-    finalEnd = 2;
+    finalStart = 0;
+    finalEnd = 1;
   } else if (!isValidNumber(start)) {
-    finalEnd = normalizeIndex(finalStart + 1, count);
+    finalStart = Math.max(0, finalEnd - 1);
   } else if (!isValidNumber(end)) {
-    finalStart = normalizeIndex(Math.max(0, finalEnd - 1), count);
+    finalEnd = Math.min(finalStart + 1, count - 1);
   }
   if (finalStart > finalEnd) {
     const temp = finalEnd;
@@ -101,9 +102,10 @@ function getCellBounds(grid: IGrid, rowStart: number, rowEnd: number, columnStar
   const { start: finalColumnStart, end: finalColumnEnd } = normalizeStartEndIndex(columnStart, columnEnd, columnCount);
 
   const x1 = grid.columns[finalRowStart];
-  const x2 = grid.columns[finalRowEnd] - (finalColumnEnd === columnCount ? 0 : grid.columnGap);
+  // the gap after a track belongs to its end line
+  const x2 = grid.columns[finalRowEnd] - grid.columnGap;
   const y1 = grid.rows[finalColumnStart];
-  const y2 = grid.rows[finalColumnEnd] - (finalRowEnd === rowCount ? 0 : grid.rowGap);
+  const y2 = grid.rows[finalColumnEnd] - grid.rowGap;
   return new Bounds().set(x1, y1, x2, y2);
 }
 
-- 
2.43.0


From 39cc63e1bbaa6f617c58fdbd928da66ea23366e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:30 +0000
Subject: [PATCH 055/151] fix: marks with skipBeforeLayouted were never
 evaluated when the layout changed no signal of them

---
 packages/vgrammar-core/src/types/grammar.ts | 1 +
 packages/vgrammar-core/src/view/View.ts     | 7 +++++++
 packages/vgrammar-core/src/view/mark.ts     | 9 ++++++++-
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/types/grammar.ts b/packages/vgrammar-core/src/types/grammar.ts
index 6d326dc..178a8c1 100644
--- a/packages/vgrammar-core/src/types/grammar.ts
+++ b/packages/vgrammar-core/src/types/grammar.ts
@@ -277,6 +277,7 @@ export interface IMark extends IGrammarBase, IProgressiveGrammar {
   layoutBounds?: IBounds;
   relativePosition?: { top?: number; bottom?: number; left?: number; right?: number };
   needLayout: () => boolean;
+  isSkippedBeforeLayout: () => boolean;
   handleLayoutEnd: () => void;
   handleRenderEnd: () => void;
   isLargeMode: () => boolean;
diff --git a/packages/vgrammar-core/src/view/View.ts b/packages/vgrammar-core/src/view/View.ts
index 48f3d66..0c2594c 100644
--- a/packages/vgrammar-core/src/view/View.ts
+++ b/packages/vgrammar-core/src/view/View.ts
@@ -864,6 +864,13 @@ export default class View extends EventEmitter implements IView {
       this._layoutState = LayoutState.layouting;
       this.doLayout();
 
+      this.traverseMarkTree(
+        mark => {
+          mark.commit();
+        },
+        mark => !!mark.isSkippedBeforeLayout()
+      );
+
       if (this._dataflow.hasCommitted()) {
         this._layoutState = LayoutState.reevaluate;
         this._dataflow.evaluate();
diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index 4e24c7c..b2fd0e6 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -65,6 +65,7 @@ export class Mark extends GrammarBase implements IMark {
    * but `handleRenderEnd` will be call after every render
    */
   protected needClear?: boolean;
+  private _skippedBeforeLayout?: boolean;
 
   coord: ICoordinate;
 
@@ -231,7 +232,8 @@ export class Mark extends GrammarBase implements IMark {
   }
 
   evaluateMainTasks(data: any[], parameters: any) {
-    if (this.needSkipBeforeLayout() && this.view.getLayoutState() === LayoutState.before) {
+    this._skippedBeforeLayout = this.needSkipBeforeLayout() && this.view.getLayoutState() === LayoutState.before;
+    if (this._skippedBeforeLayout) {
       return this;
     }
 
@@ -1200,6 +1202,11 @@ export class Mark extends GrammarBase implements IMark {
     return this._context;
   }
 
+  /** whether this mark has been skipped by the last evaluation because the layout is not ready */
+  isSkippedBeforeLayout() {
+    return this._skippedBeforeLayout;
+  }
+
   protected needSkipBeforeLayout(): boolean {
     if ((this.spec.layout as MarkBaseLayoutSpec)?.skipBeforeLayouted === true) {
       return true;
-- 
2.43.0


From 722f30aea07fd9f13f6b6f31d21bd66e0b797504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:44 +0000
Subject: [PATCH 056/151] fix: relative layout crashed for docked marks which
 are skipped before the layout

---
 packages/vgrammar-core/src/graph/layout/relative.ts | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/layout/relative.ts b/packages/vgrammar-core/src/graph/layout/relative.ts
index e23057e..072a6d1 100644
--- a/packages/vgrammar-core/src/graph/layout/relative.ts
+++ b/packages/vgrammar-core/src/graph/layout/relative.ts
@@ -28,6 +28,13 @@ const getLayoutOrderOfMark = (mark: IMark) => {
   );
 };
 
+const getBoundsOfMark = (mark: IMark, options?: ILayoutOptions) => {
+  // marks which are not evaluated yet have no bounds
+  const bounds = mark.getBounds() ?? new Bounds();
+
+  return options.parseMarkBounds ? options.parseMarkBounds(bounds, mark) : bounds;
+};
+
 export const doRelativeLayout = (
   group: IGroupMark,
   children: IMark[],
@@ -46,7 +53,7 @@ export const doRelativeLayout = (
   children.forEach((child: IMark) => {
     const layoutSpec = child.getSpec().layout as MarkRelativeItemSpec;
     const padding = normalizePadding(layoutSpec.padding);
-    const bounds = options.parseMarkBounds ? options.parseMarkBounds(child.getBounds(), child) : child.getBounds();
+    const bounds = getBoundsOfMark(child, options);
 
     if (layoutSpec.position === 'top' || layoutSpec.position === 'bottom') {
       const childHeight = Math.min(bounds.height() + padding.top + padding.bottom, maxChildHeight);
@@ -121,7 +128,7 @@ export const doRelativeLayout = (
     const child = sortedChildren[i];
     const layoutSpec = child.getSpec().layout as MarkRelativeItemSpec;
     const padding = normalizePadding(layoutSpec.padding);
-    const bounds = options.parseMarkBounds ? options.parseMarkBounds(child.getBounds(), child) : child.getBounds();
+    const bounds = getBoundsOfMark(child, options);
 
     if (layoutSpec.position === 'top' || layoutSpec.position === 'bottom') {
       const childHeight = Math.min(bounds.height() + padding.top + padding.bottom, maxChildHeight);
-- 
2.43.0


From 47e49e3364cc9837fdddad5220605047d7d7f105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:11 +0000
Subject: [PATCH 057/151] fix: marks docked right of marks outside overlapped
 the content of relative layouts

---
 packages/vgrammar-core/src/graph/layout/relative.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/graph/layout/relative.ts b/packages/vgrammar-core/src/graph/layout/relative.ts
index 072a6d1..488f12d 100644
--- a/packages/vgrammar-core/src/graph/layout/relative.ts
+++ b/packages/vgrammar-core/src/graph/layout/relative.ts
@@ -205,7 +205,7 @@ export const doRelativeLayout = (
       }
     } else if (layoutSpec.position === 'outside') {
       curLeftX -= Math.max(parentLayoutBounds.x1 - bounds.x1, 0) + padding.left;
-      curRightX -= Math.max(bounds.x2 - parentLayoutBounds.x2, 0) + padding.right;
+      curRightX += Math.max(bounds.x2 - parentLayoutBounds.x2, 0) + padding.right;
       curTopY -= Math.max(parentLayoutBounds.y1 - bounds.y1, 0) + padding.top;
       curBottomY += Math.max(bounds.y2 - parentLayoutBounds.y2, 0) + padding.bottom;
     } else {
-- 
2.43.0


From 36c220929d46f6a36a1b3f6407b50d341a0ff9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:43 +0000
Subject: [PATCH 058/151] fix: marks parsed with another group stayed in their
 old group, without a group they lost the dependency on it

---
 packages/vgrammar-core/src/view/mark.ts | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index b2fd0e6..ba608cc 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -1,4 +1,4 @@
-import type { IGroup } from '@visactor/vrender-core';
+import type { IGroup, INode } from '@visactor/vrender-core';
 import type { IBounds } from '@visactor/vutils';
 import { isArray, isNil, isString, isValid } from '@visactor/vutils';
 import { CollectionMarkType, DefaultKey, DefaultMarkData, Mark3DType } from '../graph/constants';
@@ -125,12 +125,19 @@ export class Mark extends GrammarBase implements IMark {
     super.parse(spec);
 
     // TODO: add group api
-    if (this.spec.group) {
-      const groupMark = isString(this.spec.group) ? this.view.getMarkById(this.spec.group) : this.spec.group;
-      this.detach(groupMark);
+    const getGroup = (group?: IGroupMark | string) =>
+      (isString(group) ? this.view.getMarkById(group) : group) as IGroupMark | undefined;
+    const prevGroup = this.group ?? getGroup(this.spec.group);
+    const groupMark = getGroup(spec.group) ?? this.group;
+    if (prevGroup) {
+      this.detach(prevGroup);
     }
-    const groupMark = isString(spec.group) ? this.view.getMarkById(spec.group) : spec.group;
     this.attach(groupMark);
+    if (this.group && this.group !== groupMark) {
+      this.group.removeChild(this);
+      this.group = groupMark;
+      groupMark.appendChild(this);
+    }
 
     this.join(spec.from?.data, spec.key, spec.sort, spec.groupBy, spec.groupSort);
     this.coordinate(spec.coordinate);
@@ -666,6 +673,12 @@ export class Mark extends GrammarBase implements IMark {
     } else {
       this.graphicParent = groupGraphicItem;
 
+      const graphicItem = this.getGroupGraphicItem();
+      if (graphicItem && graphicItem.parent !== groupGraphicItem) {
+        graphicItem.parent?.removeChild(graphicItem);
+        groupGraphicItem.insertIntoKeepIdx(graphicItem as unknown as INode, markIndex);
+      }
+
       this.graphicParent.setAttributes({
         overflow: this.spec.overflow
       });
-- 
2.43.0


From f9cec0a00d8a8a0f09d4bbcdbcfd06874f6617c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:46 +0000
Subject: [PATCH 059/151] fix: new marks were inserted before their
 predecessors while other marks were still exiting

---
 packages/vgrammar-core/src/view/View.ts | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/packages/vgrammar-core/src/view/View.ts b/packages/vgrammar-core/src/view/View.ts
index 0c2594c..4e821cc 100644
--- a/packages/vgrammar-core/src/view/View.ts
+++ b/packages/vgrammar-core/src/view/View.ts
@@ -884,9 +884,7 @@ export default class View extends EventEmitter implements IView {
 
     this._layoutState = null;
 
-    if (grammarWillDetach) {
-      this.sortGraphicItems();
-    }
+    this.sortGraphicItems();
 
     this.findProgressiveMarks();
 
@@ -1013,7 +1011,7 @@ export default class View extends EventEmitter implements IView {
 
   /**
    * graphic items are inserted one by one while marks are being evaluated,
-   * the order needs to be corrected when marks are replaced, since graphic items of the replaced marks are still there
+   * the order needs to be corrected when marks are replaced or still exiting, since their graphic items are still there
    */
   private sortGraphicItems() {
     this.traverseMarkTree(
-- 
2.43.0


From c9e754d31d0c5e3b59e59d3b8b725989efd884d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:50 +0000
Subject: [PATCH 060/151] fix: z-index, clip and overflow of reused marks
 survived although they are no longer specified

---
 packages/vgrammar-core/src/view/mark.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index ba608cc..d3f4172 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -196,6 +196,13 @@ export class Mark extends GrammarBase implements IMark {
     this._context = mark._context;
     // set group in later evaluate progress
     this.graphicItem = mark.graphicItem;
+    // configurations of the last spec should not survive, current ones are set in later evaluate progress
+    (this.graphicItem ?? (this.getGroupGraphicItem() as unknown as IGroup))?.setAttributes({
+      zIndex: 0,
+      clip: false,
+      path: null,
+      overflow: undefined
+    });
     this.graphicIndex = mark.graphicIndex;
     this.graphicParent = mark.graphicParent;
 
-- 
2.43.0


From 41cfdfc8cbffb02c5f247a7967392177d905b8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:56 +0000
Subject: [PATCH 061/151] fix: marks were drawn into the default layer although
 a layer is given in the options

---
 packages/vgrammar-core/src/graph/canvas-renderer.ts | 4 ++++
 packages/vgrammar-core/src/types/renderer.ts        | 3 ++-
 packages/vgrammar-core/src/view/mark.ts             | 2 +-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/canvas-renderer.ts b/packages/vgrammar-core/src/graph/canvas-renderer.ts
index f20450a..3f55ecd 100644
--- a/packages/vgrammar-core/src/graph/canvas-renderer.ts
+++ b/packages/vgrammar-core/src/graph/canvas-renderer.ts
@@ -44,6 +44,10 @@ export default class CanvasRenderer implements IRenderer {
     return this._stage ?? null;
   }
 
+  layer() {
+    return this._layer ?? null;
+  }
+
   gestureController() {
     return this._gestureController ?? null;
   }
diff --git a/packages/vgrammar-core/src/types/renderer.ts b/packages/vgrammar-core/src/types/renderer.ts
index f7cb4db..ea12d33 100644
--- a/packages/vgrammar-core/src/types/renderer.ts
+++ b/packages/vgrammar-core/src/types/renderer.ts
@@ -1,5 +1,5 @@
 import type { IBoundsLike } from '@visactor/vutils';
-import type { IColor, IEventTarget, Stage } from '@visactor/vrender-core';
+import type { IColor, IEventTarget, ILayer, Stage } from '@visactor/vrender-core';
 import type { IViewEventConfig, IViewOptions } from './view';
 
 export interface IRenderer {
@@ -17,6 +17,7 @@ export interface IRenderer {
   setViewBox: (viewBox: IBoundsLike, rerender: boolean) => this;
 
   stage: () => Stage;
+  layer: () => ILayer;
   canvas: () => HTMLCanvasElement;
   context: () => CanvasRenderingContext2D;
 
diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index d3f4172..083bd8a 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -656,7 +656,7 @@ export class Mark extends GrammarBase implements IMark {
       }
     }
 
-    const groupGraphicItem = this.group ? this.group.getGroupGraphicItem() : stage.defaultLayer;
+    const groupGraphicItem = this.group ? this.group.getGroupGraphicItem() : this.view.renderer.layer();
     const markIndex = this.group?.children?.indexOf(this) ?? 0;
     if (this.markType !== GrammarMarkType.group) {
       if (!this.graphicItem) {
-- 
2.43.0


From 829f925a1df0fd81a5a38b24d4ac54baebbb4c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:59 +0000
Subject: [PATCH 062/151] fix: exiting elements were never removed when all
 graphic items are dropped

---
 packages/vgrammar-core/src/view/View.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/vgrammar-core/src/view/View.ts b/packages/vgrammar-core/src/view/View.ts
index 4e821cc..c38ce5c 100644
--- a/packages/vgrammar-core/src/view/View.ts
+++ b/packages/vgrammar-core/src/view/View.ts
@@ -441,6 +441,8 @@ export default class View extends EventEmitter implements IView {
   removeAllGraphicItems() {
     this.traverseMarkTree((mark: IMark) => {
       if (mark.graphicItem) {
+        // the animations refer to the graphic items
+        mark.animate?.stop();
         removeGraphicItem(mark.graphicItem);
         mark.elementMap.forEach(element => {
           element.resetGraphicItem();
-- 
2.43.0


From e56c3d24cdee874d28f88590a10e673bf6974923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:05 +0000
Subject: [PATCH 063/151] fix: grammars which were added again before the next
 evaluation were released, marks lost their encoding when they are added

---
 packages/vgrammar-core/src/view/View.ts | 4 ++++
 packages/vgrammar-core/src/view/mark.ts | 8 ++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/view/View.ts b/packages/vgrammar-core/src/view/View.ts
index c38ce5c..ca641f6 100644
--- a/packages/vgrammar-core/src/view/View.ts
+++ b/packages/vgrammar-core/src/view/View.ts
@@ -400,6 +400,10 @@ export default class View extends EventEmitter implements IView {
     if (this.grammars.find(storedGrammar => storedGrammar.uid === grammar.uid)) {
       return this;
     }
+    // the grammar is still alive when it has not been released since its removal
+    if (this._cachedGrammars.find(storedGrammar => storedGrammar.uid === grammar.uid)) {
+      this._cachedGrammars.unrecord(grammar);
+    }
     this.grammars.record(grammar);
     this._dataflow.add(grammar);
     grammar.parse(grammar.getSpec());
diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index 083bd8a..36c7bab 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -123,6 +123,7 @@ export class Mark extends GrammarBase implements IMark {
 
   parse(spec: MarkSpec) {
     super.parse(spec);
+    this._finalParameters = null;
 
     // TODO: add group api
     const getGroup = (group?: IGroupMark | string) =>
@@ -143,14 +144,17 @@ export class Mark extends GrammarBase implements IMark {
     this.coordinate(spec.coordinate);
     this.state(spec.state, this.spec.stateSort);
 
+    // the new encode might be the old one
+    const encode: any = Object.assign({}, spec.encode);
+
     // remove old encode
     Object.keys(this.spec.encode ?? {}).forEach(state => {
       this.encodeState(state, {}, true);
     });
 
     // add new encode
-    Object.keys(spec.encode ?? {}).forEach(state => {
-      this.encodeState(state, (spec.encode as any)[state]);
+    Object.keys(encode).forEach(state => {
+      this.encodeState(state, encode[state]);
     });
     this.animation(spec.animation);
     this.animationState(spec.animationState);
-- 
2.43.0


From b9c67a71cc68443f7f18cbae86edeaf2084e6816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:16 +0000
Subject: [PATCH 064/151] fix: added grammars lost their id and name when these
 are not part of the spec

---
 packages/vgrammar-core/src/view/View.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/view/View.ts b/packages/vgrammar-core/src/view/View.ts
index ca641f6..d664821 100644
--- a/packages/vgrammar-core/src/view/View.ts
+++ b/packages/vgrammar-core/src/view/View.ts
@@ -406,7 +406,7 @@ export default class View extends EventEmitter implements IView {
     }
     this.grammars.record(grammar);
     this._dataflow.add(grammar);
-    grammar.parse(grammar.getSpec());
+    grammar.parse(Object.assign({ id: grammar.id(), name: grammar.name() }, grammar.getSpec()));
 
     // update layout tree after grammar update
     this._needBuildLayoutTree = true;
-- 
2.43.0


From e5f3f6867a96eb1e6ab9219bb5d30f57232c60b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:20 +0000
Subject: [PATCH 065/151] fix: groups which were added again before the next
 evaluation had no graphic item

---
 packages/vgrammar-core/src/view/group.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/view/group.ts b/packages/vgrammar-core/src/view/group.ts
index 06f4ded..d3611c9 100644
--- a/packages/vgrammar-core/src/view/group.ts
+++ b/packages/vgrammar-core/src/view/group.ts
@@ -1,7 +1,7 @@
 import type { INode } from '@visactor/vrender-core';
 import { transformsByType } from '../graph/attributes';
 import { DefaultKey, DefaultMarkData } from '../graph/constants';
-import { BuiltInEncodeNames, GrammarMarkType, HOOK_EVENT } from '../graph/enums';
+import { BuiltInEncodeNames, DiffState, GrammarMarkType, HOOK_EVENT } from '../graph/enums';
 import { createGraphicItem } from '../graph/util/graphic';
 import type { IElement, IGlyphMark, IGroupMark, IMark, IView } from '../types';
 import { Mark } from './mark';
@@ -63,6 +63,9 @@ export class GroupMark extends Mark implements IGroupMark {
       el.updateData(DefaultKey, DefaultMarkData, () => '');
       this.elements = [el];
       this.elementMap.set(DefaultKey, el);
+    } else if (this.elements[0].diffState === DiffState.exit) {
+      // the removal of the group has been withdrawn
+      this.elements[0].diffState = DiffState.enter;
     }
   }
 
-- 
2.43.0


From d617cad18aa50f5fb2a1855ae2dfbfc22fba89a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:14 +0000
Subject: [PATCH 066/151] fix: interval marks crashed for band encodings
 without scale grammars

---
 packages/vgrammar-core/src/semantic-marks/interval.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/semantic-marks/interval.ts b/packages/vgrammar-core/src/semantic-marks/interval.ts
index f505126..2419ae3 100644
--- a/packages/vgrammar-core/src/semantic-marks/interval.ts
+++ b/packages/vgrammar-core/src/semantic-marks/interval.ts
@@ -92,7 +92,7 @@ export class Interval extends Mark {
             const scaleGrammar =
               this.view.getScaleById((userEncoder as any).x?.scale) ??
               this.view.getScaleById((userEncoder as any).y?.scale);
-            const coord = scaleGrammar.getCoordinate();
+            const coord = scaleGrammar?.getCoordinate?.();
 
             if (coord && coord.type === 'polar') {
               this.disableCoordinateTransform = true;
-- 
2.43.0


From 36dff04862d59bbe77ac1e435b04021dafe8dfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:19 +0000
Subject: [PATCH 067/151] fix: only the first exit animation of an element was
 run

---
 .../src/graph/animation/animate.ts            | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/animation/animate.ts b/packages/vgrammar-core/src/graph/animation/animate.ts
index dbab67a..ac80a78 100644
--- a/packages/vgrammar-core/src/graph/animation/animate.ts
+++ b/packages/vgrammar-core/src/graph/animation/animate.ts
@@ -89,8 +89,9 @@ export class Animate implements IAnimate {
       }
     });
 
+    const idleElements = this.getIdleElements(elements);
     this.configs.forEach(config => {
-      this.animateByTimeline(config, elements, parameters);
+      this.animateByTimeline(config, idleElements, parameters);
     });
 
     this.mark.cleanExitElements();
@@ -107,7 +108,7 @@ export class Animate implements IAnimate {
     // if (this.animators.get(animationState)?.length > 0) { return; }
 
     const stateConfigs = this.configs.filter(config => config.state === animationState);
-    const elements = this.mark.getAllElements();
+    const elements = this.getIdleElements(this.mark.getAllElements());
     const parameters = this.mark.parameters();
 
     const animators = stateConfigs.reduce((animators, config) => {
@@ -145,7 +146,7 @@ export class Animate implements IAnimate {
 
     const parsedConfigs = normalizeStateAnimationConfig(ImmediateAnimationState, config, this.immediateConfigs.length);
     this.immediateConfigs = this.immediateConfigs.concat(parsedConfigs);
-    const elements = this.mark.getAllElements();
+    const elements = this.getIdleElements(this.mark.getAllElements());
     const parameters = this.mark.parameters();
 
     const animators = parsedConfigs.reduce((animators, config) => {
@@ -258,6 +259,14 @@ export class Animate implements IAnimate {
     this.timelineCount = null;
   }
 
+  /**
+   * do not animate on element which is running exit animation
+   * if an element is reserved, it should be set for exit animation and will be removed
+   */
+  private getIdleElements(elements: IElement[]) {
+    return elements.filter(element => !(element.isReserved && element.diffState === DiffState.exit));
+  }
+
   private animateByTimeline(
     config: IParsedAnimationConfig,
     elements: IElement[],
@@ -266,9 +275,6 @@ export class Animate implements IAnimate {
   ) {
     const animators: IAnimator[] = [];
     const animatedElements = elements.filter(element => {
-      // do not animate on element which is running exit animation
-      // if an element is reserved, it should be set for exit animation and will be removed
-      const checkExit = !(element.isReserved && element.diffState === DiffState.exit);
       // do not check animation state if forceState is set
       const state = this.getAnimationState(element);
       const checkDisabled = !this.disabledStates.includes(state);
@@ -276,7 +282,7 @@ export class Animate implements IAnimate {
       // filter elements by partitioner config
       const checkPartitioner =
         !config.timeline.partitioner || config.timeline.partitioner(element.getDatum(), element, parameters);
-      return checkExit && checkDisabled && checkState && checkPartitioner;
+      return checkDisabled && checkState && checkPartitioner;
     });
 
     if (animatedElements.length) {
-- 
2.43.0


From cd2da4be3a136dac7432186960f05b2cd77ccd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:24 +0000
Subject: [PATCH 068/151] fix: animations with a total time were stopped but
 never ended

---
 packages/vgrammar-core/src/graph/animation/animator.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/animation/animator.ts b/packages/vgrammar-core/src/graph/animation/animator.ts
index a174e17..1bf329f 100644
--- a/packages/vgrammar-core/src/graph/animation/animator.ts
+++ b/packages/vgrammar-core/src/graph/animation/animator.ts
@@ -140,8 +140,8 @@ export class Animator implements IAnimator {
     if (isValidNumber(this.unit.totalTime)) {
       // FIXME: use VRender api instead after VRender refactor is finished
       setTimeout(() => {
-        if (graphicAnimate) {
-          graphicAnimate.stop('end');
+        if (this.runnings?.includes(graphicAnimate)) {
+          this.stop('end');
         }
       }, this.unit.totalTime);
     }
-- 
2.43.0


From 49101203a6ac51960738a5a8ccff5b8c9678a0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:33 +0000
Subject: [PATCH 069/151] fix: animations started during another one ended at
 the intermediate attributes

---
 .../src/graph/animation/animate.ts            |  3 ++-
 packages/vgrammar-core/src/graph/element.ts   | 23 +++++++++++++++++--
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/animation/animate.ts b/packages/vgrammar-core/src/graph/animation/animate.ts
index ac80a78..6b0a602 100644
--- a/packages/vgrammar-core/src/graph/animation/animate.ts
+++ b/packages/vgrammar-core/src/graph/animation/animate.ts
@@ -311,7 +311,8 @@ export class Animate implements IAnimate {
         (this.animators.get(config.state) ?? [])
           .filter(animator => animator.element === element && animator.animationOptions.id === config.id)
           .forEach(animator => {
-            animator.stop(null, false);
+            // the next animation should end at the attributes after the current one, not at the intermediate ones
+            animator.stop(element.getFinalGraphicAttributes() ? null : 'end', false);
             this.handleAnimatorEnd(animator, false);
           });
       });
diff --git a/packages/vgrammar-core/src/graph/element.ts b/packages/vgrammar-core/src/graph/element.ts
index a64ac03..e947f1e 100644
--- a/packages/vgrammar-core/src/graph/element.ts
+++ b/packages/vgrammar-core/src/graph/element.ts
@@ -784,10 +784,29 @@ export class Element implements IElement {
    * @param channel 视觉通道
    */
   getFinalAnimationAttribute(channel: string) {
-    return this.getFinalGraphicAttributes()?.[channel] ?? this.getGraphicAttribute(channel);
+    return (
+      this.getFinalGraphicAttributes()?.[channel] ??
+      this.getRunningEndAttributes()?.[channel] ??
+      this.getGraphicAttribute(channel)
+    );
   }
   getFinalAnimationAttributes() {
-    return this.getFinalGraphicAttributes() ?? this.graphicItem.attribute;
+    const finalGraphicAttributes = this.getFinalGraphicAttributes();
+    if (finalGraphicAttributes) {
+      return finalGraphicAttributes;
+    }
+    const endAttributes = this.getRunningEndAttributes();
+    return endAttributes ? Object.assign({}, this.graphicItem.attribute, endAttributes) : this.graphicItem.attribute;
+  }
+
+  /**
+   * the attributes at the end of the animations which are running, null without animations
+   */
+  private getRunningEndAttributes(): { [key: string]: any } | null {
+    const animators = this.mark.animate?.getElementAnimators?.(this);
+    return animators?.length
+      ? animators.reduce((attributes, animator) => Object.assign(attributes, animator.getEndAttributes()), {})
+      : null;
   }
 
   protected setNextGraphicAttributes(attributes: { [channel: string]: any }) {
-- 
2.43.0


From 2c9b94a70f439f444db42db62154400af6912ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:48 +0000
Subject: [PATCH 070/151] fix: stopping animations applied the end of
 animations which are superseded by later ones

---
 .../src/graph/animation/animator.ts             | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/animation/animator.ts b/packages/vgrammar-core/src/graph/animation/animator.ts
index 1bf329f..6735a30 100644
--- a/packages/vgrammar-core/src/graph/animation/animator.ts
+++ b/packages/vgrammar-core/src/graph/animation/animator.ts
@@ -75,7 +75,7 @@ export class Animator implements IAnimator {
 
   stop(stopState: 'start' | 'end' | null = 'end', invokeCallback: boolean = true): this {
     // FIXME: wait for VRender to fix 'end' parameter
-    this.runnings.forEach(running => running.stop(stopState));
+    this.runnings.forEach(running => running.stop(stopState === 'end' ? this.getRunningEndProps(running) : stopState));
     this.animationEnd(invokeCallback);
     return this;
   }
@@ -105,7 +105,20 @@ export class Animator implements IAnimator {
 
   getEndAttributes() {
     return this.runnings.reduce((attributes, running) => {
-      return Object.assign(attributes, running.getEndProps());
+      return Object.assign(attributes, this.getRunningEndProps(running));
+    }, {} as Record<string, any>);
+  }
+
+  /**
+   * the attributes at the end of the animation, without those which are taken over by later animations
+   */
+  private getRunningEndProps(running: IGraphicAnimate) {
+    const endProps = running.getEndProps() as Record<string, any>;
+    return Object.keys(endProps ?? {}).reduce((attributes, key) => {
+      if (running.validAttr(key)) {
+        attributes[key] = endProps[key];
+      }
+      return attributes;
     }, {} as Record<string, any>);
   }
 
-- 
2.43.0


From 7eb0602b1bdb8bc4febed17eef03e3b630c01ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:51 +0000
Subject: [PATCH 071/151] fix: channel animations started during another one
 ended at the intermediate attributes

---
 packages/vgrammar-core/src/graph/animation/attribute.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/animation/attribute.ts b/packages/vgrammar-core/src/graph/animation/attribute.ts
index 9db31ab..57acb62 100644
--- a/packages/vgrammar-core/src/graph/animation/attribute.ts
+++ b/packages/vgrammar-core/src/graph/animation/attribute.ts
@@ -91,7 +91,7 @@ export function channelAnimationAttributes(
     attributes = channel.reduce(
       (res, key) => {
         res.from[key] = element.getGraphicAttribute(key, true);
-        res.to[key] = element.getGraphicAttribute(key, false);
+        res.to[key] = element.getFinalAnimationAttribute(key);
         return res;
       },
       { from: {}, to: {} }
@@ -108,7 +108,7 @@ export function channelAnimationAttributes(
             : undefined;
           res.to[key] = hasTo
             ? parseChannelValue(element, key, channel[key].to, animationParameters, parameters)
-            : element.getGraphicAttribute(key, false);
+            : element.getFinalAnimationAttribute(key);
         }
 
         return res;
-- 
2.43.0


From e793e4bdf30d8df3f7d217a558c4a9a1c34d4e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:03 +0000
Subject: [PATCH 072/151] fix: point and clip animations started during another
 one ended at the intermediate attributes

---
 .../src/graph/animation/animation/clip.ts            |  2 +-
 .../src/graph/animation/animation/grow-points.ts     | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/animation/animation/clip.ts b/packages/vgrammar-core/src/graph/animation/animation/clip.ts
index 5faab61..8cebdad 100644
--- a/packages/vgrammar-core/src/graph/animation/animation/clip.ts
+++ b/packages/vgrammar-core/src/graph/animation/animation/clip.ts
@@ -7,7 +7,7 @@ export const clipIn: TypeAnimation<IElement> = (
   animationParameters: IAnimationParameters
 ) => {
   const clipDimension = element.getGraphicAttribute('clipRangeByDimension', false);
-  const clipRange = element.getGraphicAttribute('clipRange', false) ?? 1;
+  const clipRange = element.getFinalAnimationAttribute('clipRange') ?? 1;
   if (options && options.clipDimension) {
     return {
       from: { clipRange: 0, clipRangeByDimension: options.clipDimension },
diff --git a/packages/vgrammar-core/src/graph/animation/animation/grow-points.ts b/packages/vgrammar-core/src/graph/animation/animation/grow-points.ts
index 7390996..2169851 100644
--- a/packages/vgrammar-core/src/graph/animation/animation/grow-points.ts
+++ b/packages/vgrammar-core/src/graph/animation/animation/grow-points.ts
@@ -14,7 +14,7 @@ const getCenterPoints = (
   options: IGrowPointsOverallAnimationOptions,
   animationParameters: IAnimationParameters
 ) => {
-  const points: IPointLike[] = element.getGraphicAttribute('points', false);
+  const points: IPointLike[] = element.getFinalAnimationAttribute('points');
   const center: IPointLike = { x: 0, y: 0 };
   points.forEach(point => {
     center.x += point.x;
@@ -47,7 +47,7 @@ export const growPointsIn: TypeAnimation<IElement> = (
 ) => {
   return {
     from: { points: getCenterPoints(element, options, animationParameters) },
-    to: { points: element.getGraphicAttribute('points', false) }
+    to: { points: element.getFinalAnimationAttribute('points') }
   };
 };
 
@@ -69,7 +69,7 @@ const changePointsX = (
   options: IGrowPointsAnimationOptions,
   animationParameters: IAnimationParameters
 ) => {
-  const points = element.getGraphicAttribute('points', false) ?? [];
+  const points = element.getFinalAnimationAttribute('points') ?? [];
   return points.map((point: IPointLike) => {
     if (options && options.orient === 'negative') {
       let groupRight = animationParameters.width;
@@ -107,7 +107,7 @@ export const growPointsXIn: TypeAnimation<IElement> = (
 ) => {
   return {
     from: { points: changePointsX(element, options, animationParameters) },
-    to: { points: element.getGraphicAttribute('points', false) }
+    to: { points: element.getFinalAnimationAttribute('points') }
   };
 };
 
@@ -129,7 +129,7 @@ const changePointsY = (
   options: IGrowPointsAnimationOptions,
   animationParameters: IAnimationParameters
 ) => {
-  const points = element.getGraphicAttribute('points', false) ?? [];
+  const points = element.getFinalAnimationAttribute('points') ?? [];
   return points.map((point: IPointLike) => {
     if (options && options.orient === 'negative') {
       let groupBottom = animationParameters.height;
@@ -167,7 +167,7 @@ export const growPointsYIn: TypeAnimation<IElement> = (
 ) => {
   return {
     from: { points: changePointsY(element, options, animationParameters) },
-    to: { points: element.getGraphicAttribute('points', false) }
+    to: { points: element.getFinalAnimationAttribute('points') }
   };
 };
 
-- 
2.43.0


From 02eb2b4e5acce7c49fb74511579d3ccebe7a8837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 073/151] fix: animations which are run again ended at the
 intermediate attributes

---
 packages/vgrammar-core/src/graph/animation/animate.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/animation/animate.ts b/packages/vgrammar-core/src/graph/animation/animate.ts
index 6b0a602..e934d08 100644
--- a/packages/vgrammar-core/src/graph/animation/animate.ts
+++ b/packages/vgrammar-core/src/graph/animation/animate.ts
@@ -1,4 +1,4 @@
-import { array, isNil, isNumber } from '@visactor/vutils';
+import { array, isNil, isNumber, pickWithout } from '@visactor/vutils';
 import type {
   IAnimate,
   IAnimationConfig,
@@ -311,8 +311,11 @@ export class Animate implements IAnimate {
         (this.animators.get(config.state) ?? [])
           .filter(animator => animator.element === element && animator.animationOptions.id === config.id)
           .forEach(animator => {
+            const finalAttributes = element.getFinalGraphicAttributes();
+            const endAttributes = animator.getEndAttributes();
+            animator.stop(null, false);
             // the next animation should end at the attributes after the current one, not at the intermediate ones
-            animator.stop(element.getFinalGraphicAttributes() ? null : 'end', false);
+            element.getGraphicItem()?.setAttributes(pickWithout(endAttributes, Object.keys(finalAttributes ?? {})));
             this.handleAnimatorEnd(animator, false);
           });
       });
-- 
2.43.0


From acadbe29ac85309633e9e6f3420aaed5a6861f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:18 +0000
Subject: [PATCH 074/151] fix: states and animations of the same channels
 overwrote each other

---
 .../src/graph/animation/animator.ts           | 23 +++++++++++--
 packages/vgrammar-core/src/graph/element.ts   | 33 +++++++++++++++++++
 packages/vgrammar-core/src/types/element.ts   |  1 +
 3 files changed, 55 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/animation/animator.ts b/packages/vgrammar-core/src/graph/animation/animator.ts
index 6735a30..40109d9 100644
--- a/packages/vgrammar-core/src/graph/animation/animator.ts
+++ b/packages/vgrammar-core/src/graph/animation/animator.ts
@@ -1,4 +1,4 @@
-import { isNil, isValidNumber } from '@visactor/vutils';
+import { isEqual, isNil, isValidNumber } from '@visactor/vutils';
 import type { IAnimate as IGraphicAnimate } from '@visactor/vrender-core';
 // eslint-disable-next-line no-duplicate-imports
 import { ACustomAnimate, Animate, AnimateGroup, AnimateMode } from '@visactor/vrender-core';
@@ -12,8 +12,10 @@ import type {
   IAnimationParameters,
   IAnimationTimeSlice,
   IElement,
-  IAnimationEffect
+  IAnimationEffect,
+  IParsedAnimationAttrs
 } from '../../types';
+import { DiffState } from '../enums';
 import { AttributeAnimate, channelAnimationAttributes, CustomInterpolator, typeAnimationAttributes } from './attribute';
 
 Animate.mode |= AnimateMode.SET_ATTR_IMMEDIATELY;
@@ -167,6 +169,19 @@ export class Animator implements IAnimator {
     });
   }
 
+  /**
+   * channels which are defined by the current states should stay at the values of the states
+   */
+  private keepStateAttributes(attributes: IParsedAnimationAttrs) {
+    const normalAttributes = this.element.getNormalAttributes();
+    Object.keys(normalAttributes ?? {}).forEach(channel => {
+      if (!isNil(attributes.to[channel]) && isEqual(attributes.to[channel], normalAttributes[channel])) {
+        delete attributes.to[channel];
+        attributes.from && delete attributes.from[channel];
+      }
+    });
+  }
+
   private animateTimeSlice(
     graphicAnimate: IGraphicAnimate,
     timeSlice: IAnimationTimeSlice,
@@ -195,6 +210,10 @@ export class Animator implements IAnimator {
               ? channelAnimationAttributes(this.element, effect, animationParameters, parameters)
               : undefined) ?? {};
 
+          if (attributes.to && this.element.diffState !== DiffState.exit) {
+            this.keepStateAttributes(attributes);
+          }
+
           const customOption = attributes.custom || effect?.custom;
           const customParametersOption = attributes?.customParameters || effect?.customParameters;
 
diff --git a/packages/vgrammar-core/src/graph/element.ts b/packages/vgrammar-core/src/graph/element.ts
index e947f1e..cb1fe34 100644
--- a/packages/vgrammar-core/src/graph/element.ts
+++ b/packages/vgrammar-core/src/graph/element.ts
@@ -541,9 +541,28 @@ export class Element implements IElement {
 
     const stateAnimationEnable = isBoolean(hasAnimation) ? hasAnimation : this.hasStateAnimation();
 
+    const runningEndAttributes = this.diffState === DiffState.exit ? null : this.getRunningEndAttributes();
+
     this.graphicItem.stateProxy = this.getStateAttrs;
     this.graphicItem.useStates(this.states, stateAnimationEnable);
 
+    const normalAttrs = (this.graphicItem as any).normalAttrs;
+    if (runningEndAttributes && normalAttrs) {
+      // attributes of states take precedence over the animations which are running,
+      // when states are cleared, the attributes should be restored to the end of these animations
+      const channels = Object.keys(normalAttrs);
+      channels.forEach(channel => {
+        if (has(runningEndAttributes, channel)) {
+          normalAttrs[channel] = runningEndAttributes[channel];
+        }
+      });
+      this.graphicItem.animates?.forEach((animate: any) => {
+        if (!animate.stateNames && animate.getDuration() !== Infinity) {
+          animate.preventAttrs(channels);
+        }
+      });
+    }
+
     this.mark.emit(HOOK_EVENT.AFTER_ELEMENT_STATE, { states }, this);
 
     return true;
@@ -799,6 +818,20 @@ export class Element implements IElement {
     return endAttributes ? Object.assign({}, this.graphicItem.attribute, endAttributes) : this.graphicItem.attribute;
   }
 
+  /**
+   * the normal values of the attributes which are defined by the current states, null without states
+   */
+  getNormalAttributes(): { [key: string]: any } | null {
+    const normalAttrs = (this.graphicItem as any)?.normalAttrs;
+    if (!normalAttrs) {
+      return null;
+    }
+    return Object.keys(normalAttrs).reduce((attributes, channel) => {
+      attributes[channel] = normalAttrs[channel] ?? (this.graphicItem as any).getDefaultAttribute(channel);
+      return attributes;
+    }, {} as { [key: string]: any });
+  }
+
   /**
    * the attributes at the end of the animations which are running, null without animations
    */
diff --git a/packages/vgrammar-core/src/types/element.ts b/packages/vgrammar-core/src/types/element.ts
index 16b4fbb..38a2334 100644
--- a/packages/vgrammar-core/src/types/element.ts
+++ b/packages/vgrammar-core/src/types/element.ts
@@ -152,6 +152,7 @@ export interface IElement {
   getPrevGraphicAttributes: () => { [key: string]: any };
   getNextGraphicAttributes: () => { [key: string]: any };
   getFinalAnimationAttribute: (channel: string) => any;
+  getNormalAttributes: () => { [key: string]: any } | null;
   getFinalAnimationAttributes: () => { [key: string]: any };
   clearChangedGraphicAttributes: () => void;
   clearGraphicAttributes: () => void;
-- 
2.43.0


From f676e9f3e51565db45bef68b14c36187be018ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 075/151] fix: custom interpolators overwrote attributes which
 later animations have taken over

---
 packages/vgrammar-core/src/graph/animation/attribute.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/vgrammar-core/src/graph/animation/attribute.ts b/packages/vgrammar-core/src/graph/animation/attribute.ts
index 57acb62..5666cf7 100644
--- a/packages/vgrammar-core/src/graph/animation/attribute.ts
+++ b/packages/vgrammar-core/src/graph/animation/attribute.ts
@@ -159,6 +159,12 @@ export class CustomInterpolator extends ACustomAnimate<any> {
       this._element,
       this.params.parameters
     );
+    // attributes which are taken over by other animations should not be changed any more
+    Object.keys(out).forEach(key => {
+      if (!this.subAnimate.animate.validAttr(key)) {
+        delete out[key];
+      }
+    });
   }
 }
 
-- 
2.43.0


From 9016234f59f27a92b9ad64c776d81fe6660e9875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:39 +0000
Subject: [PATCH 076/151] fix: time slices without duration never ended when
 there is no total time

---
 packages/vgrammar-core/src/graph/animation/animate.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/animation/animate.ts b/packages/vgrammar-core/src/graph/animation/animate.ts
index e934d08..c3499bd 100644
--- a/packages/vgrammar-core/src/graph/animation/animate.ts
+++ b/packages/vgrammar-core/src/graph/animation/animate.ts
@@ -11,7 +11,7 @@ import type {
 } from '../../types/animate';
 import { Animator } from './animator';
 import { invokeAnimateSpec, normalizeAnimationConfig, normalizeStateAnimationConfig } from './config';
-import { DefaultAnimationParameters, ImmediateAnimationState } from '../constants';
+import { DefaultAnimationDuration, DefaultAnimationParameters, ImmediateAnimationState } from '../constants';
 import type { AnimationEvent, IElement, IMark, MarkFunctionType } from '../../types';
 import { invokeFunctionType } from '../../parse/util';
 import { Arranger } from './arranger';
@@ -413,7 +413,9 @@ export class Animate implements IAnimate {
     (timeline.timeSlices as IAnimationTimeSlice[]).forEach(timeSlice => {
       const delay = invokeAnimateSpec(timeSlice.delay, element, parameters);
       const delayAfter = invokeAnimateSpec(timeSlice.delayAfter, element, parameters);
-      const duration = invokeAnimateSpec(timeSlice.duration, element, parameters) ?? totalTime / elementCount;
+      const duration = 
+        invokeAnimateSpec(timeSlice.duration, element, parameters) ??
+        (isNil(totalTime) ? DefaultAnimationDuration : totalTime / elementCount);
       const effects = array(timeSlice.effects).map(effect =>
         Object.assign({}, effect, {
           customParameters: invokeAnimateSpec(effect.customParameters, element, parameters)
-- 
2.43.0


From dfc3af986ada96ce4ee98ae00afaad14ba491293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:42 +0000
Subject: [PATCH 077/151] fix: ids of animation timelines were dropped

---
 packages/vgrammar-core/src/graph/animation/config.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/vgrammar-core/src/graph/animation/config.ts b/packages/vgrammar-core/src/graph/animation/config.ts
index c3e50a6..4fa63a4 100644
--- a/packages/vgrammar-core/src/graph/animation/config.ts
+++ b/packages/vgrammar-core/src/graph/animation/config.ts
@@ -56,6 +56,7 @@ function transformToTimelineConfig(animationConfig: IAnimationConfig): IAnimatio
   if (formattedTimeSlices.length) {
     // fill up default animation config
     return {
+      id: (animationConfig as IAnimationTimeline).id,
       startTime: (animationConfig as IAnimationTimeline).startTime ?? DefaultAnimationStartTime,
       totalTime: (animationConfig as IAnimationTimeline).totalTime,
       oneByOne: (animationConfig as IAnimationTimeline).oneByOne ?? DefaultAnimationOneByOne,
-- 
2.43.0


From 572ae6d336980d80a7a3116f058446d395508180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:45 +0000
Subject: [PATCH 078/151] fix: stopped animations missed the end of all time
 slices but the last

---
 .../vgrammar-core/src/graph/animation/animator.ts     | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/animation/animator.ts b/packages/vgrammar-core/src/graph/animation/animator.ts
index 40109d9..ff0a8f8 100644
--- a/packages/vgrammar-core/src/graph/animation/animator.ts
+++ b/packages/vgrammar-core/src/graph/animation/animator.ts
@@ -42,6 +42,8 @@ export class Animator implements IAnimator {
 
   private unit: IAnimationUnit;
   private runnings: IGraphicAnimate[] = [];
+  // attributes at the end of all time slices
+  private endProps: Record<string, any> = {};
   private callbackFunction: (...args: any[]) => any;
 
   constructor(
@@ -115,8 +117,9 @@ export class Animator implements IAnimator {
    * the attributes at the end of the animation, without those which are taken over by later animations
    */
   private getRunningEndProps(running: IGraphicAnimate) {
-    const endProps = running.getEndProps() as Record<string, any>;
-    return Object.keys(endProps ?? {}).reduce((attributes, key) => {
+    // props of waiting steps only contain the attributes of the step before
+    const endProps: Record<string, any> = Object.assign({}, running.getEndProps(), this.endProps);
+    return Object.keys(endProps).reduce((attributes, key) => {
       if (running.validAttr(key)) {
         attributes[key] = endProps[key];
       }
@@ -250,6 +253,10 @@ export class Animator implements IAnimator {
         })
         .filter(animate => !isNil(animate));
 
+      customAnimates.forEach(customAnimate => {
+        Object.assign(this.endProps, customAnimate.getEndProps());
+      });
+
       if (customAnimates.length === 1) {
         graphicAnimate.play(customAnimates[0]);
       } else if (customAnimates.length > 1) {
-- 
2.43.0


From f72a1fd5488a380be13a55e99218034b09a1edaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:52 +0000
Subject: [PATCH 079/151] fix: runs arranged after others started at once, and
 were not rearranged when the others are

---
 .../vgrammar-core/src/graph/animation/arranger.ts  | 14 +++++++++++++-
 packages/vgrammar-core/src/types/animate.ts        |  3 ++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/animation/arranger.ts b/packages/vgrammar-core/src/graph/animation/arranger.ts
index d06f145..e0a7759 100644
--- a/packages/vgrammar-core/src/graph/animation/arranger.ts
+++ b/packages/vgrammar-core/src/graph/animation/arranger.ts
@@ -3,6 +3,7 @@ import type { IAnimateArranger, IAnimator } from '../../types/animate';
 
 export class Arranger implements IAnimateArranger {
   afterArranger: IAnimateArranger;
+  nextArrangers: IAnimateArranger[] = [];
   parallelArrangers: IAnimateArranger[] = [this];
 
   animators: IAnimator[];
@@ -15,6 +16,7 @@ export class Arranger implements IAnimateArranger {
     this.totalTime = this.animators.reduce((time, animator) => {
       return Math.max(time, animator.getTotalAnimationTime());
     }, 0);
+    this.endTime = this.totalTime;
   }
 
   parallel(arranger: IAnimateArranger) {
@@ -27,12 +29,19 @@ export class Arranger implements IAnimateArranger {
   }
 
   after(arranger: IAnimateArranger) {
+    if (this.afterArranger) {
+      this.afterArranger.nextArrangers = this.afterArranger.nextArrangers.filter(next => next !== this);
+    }
     this.afterArranger = arranger;
+    arranger.nextArrangers.push(this);
     this.arrangeTime();
     return this;
   }
 
-  arrangeTime() {
+  arrangeTime(path: IAnimateArranger[] = []) {
+    if (path.includes(this)) {
+      return;
+    }
     const parallelTime = this.parallelArrangers.reduce((time, arranger) => {
       return Math.max(time, arranger.totalTime);
     }, this.totalTime);
@@ -47,5 +56,8 @@ export class Arranger implements IAnimateArranger {
         animator.startAt(startTime);
       });
     });
+    this.parallelArrangers.forEach(arranger => {
+      arranger.nextArrangers.forEach(next => next.arrangeTime(path.concat(this.parallelArrangers)));
+    });
   }
 }
diff --git a/packages/vgrammar-core/src/types/animate.ts b/packages/vgrammar-core/src/types/animate.ts
index 69e7406..9cc4e59 100644
--- a/packages/vgrammar-core/src/types/animate.ts
+++ b/packages/vgrammar-core/src/types/animate.ts
@@ -294,12 +294,13 @@ export interface IAnimateArranger {
 
   // internal properties
   afterArranger: IAnimateArranger;
+  nextArrangers: IAnimateArranger[];
   parallelArrangers: IAnimateArranger[];
   animators: IAnimator[];
   totalTime: number;
   startTime: number;
   endTime: number;
-  arrangeTime: () => void;
+  arrangeTime: (path?: IAnimateArranger[]) => void;
 }
 
 export interface IBaseAnimate {
-- 
2.43.0


From d684ff03a3807c648da84b627982ee08f3207355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 080/151] fix: pausing animations had no effect before their
 first frame

---
 .../vgrammar-core/src/graph/animation/animator.ts     | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/animation/animator.ts b/packages/vgrammar-core/src/graph/animation/animator.ts
index ff0a8f8..900a255 100644
--- a/packages/vgrammar-core/src/graph/animation/animator.ts
+++ b/packages/vgrammar-core/src/graph/animation/animator.ts
@@ -1,7 +1,7 @@
 import { isEqual, isNil, isValidNumber } from '@visactor/vutils';
 import type { IAnimate as IGraphicAnimate } from '@visactor/vrender-core';
 // eslint-disable-next-line no-duplicate-imports
-import { ACustomAnimate, Animate, AnimateGroup, AnimateMode } from '@visactor/vrender-core';
+import { ACustomAnimate, Animate, AnimateGroup, AnimateMode, AnimateStatus } from '@visactor/vrender-core';
 import type {
   IAnimationChannelInterpolator,
   IAnimationCustomConstructor,
@@ -85,7 +85,14 @@ export class Animator implements IAnimator {
   }
 
   pause(): this {
-    this.runnings.forEach(running => running.pause());
+    this.runnings.forEach(running => {
+      if (running.status === AnimateStatus.INITIAL) {
+        // VRender only pauses animations which have been started
+        running.status = AnimateStatus.PAUSED;
+      } else {
+        running.pause();
+      }
+    });
     return this;
   }
 
-- 
2.43.0


From f69c209279f335105d23b0cb187818593455b496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:26 +0000
Subject: [PATCH 081/151] fix: ids of immediate animations collided after
 earlier ones finished

---
 packages/vgrammar-core/src/graph/animation/animate.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/graph/animation/animate.ts b/packages/vgrammar-core/src/graph/animation/animate.ts
index c3499bd..d71bbc5 100644
--- a/packages/vgrammar-core/src/graph/animation/animate.ts
+++ b/packages/vgrammar-core/src/graph/animation/animate.ts
@@ -36,6 +36,8 @@ export class Animate implements IAnimate {
     }
   > = new WeakMap();
   private timelineCount: Record<string, number> = {};
+  // count of all executed immediate configs, used for unique ids
+  private immediateCount: number = 0;
   // record: IAnimationRecord;
 
   constructor(mark: IMark, config: Record<string, IAnimationConfig | IAnimationConfig[]>) {
@@ -144,7 +146,8 @@ export class Animate implements IAnimate {
       return;
     }
 
-    const parsedConfigs = normalizeStateAnimationConfig(ImmediateAnimationState, config, this.immediateConfigs.length);
+    const parsedConfigs = normalizeStateAnimationConfig(ImmediateAnimationState, config, this.immediateCount);
+    this.immediateCount += parsedConfigs.length;
     this.immediateConfigs = this.immediateConfigs.concat(parsedConfigs);
     const elements = this.getIdleElements(this.mark.getAllElements());
     const parameters = this.mark.parameters();
-- 
2.43.0


From fea994443e655c9a27718cdcd7c48c3b7f15812b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 082/151] fix: restarted animations lost the count of their
 animators

---
 packages/vgrammar-core/src/graph/animation/animate.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/animation/animate.ts b/packages/vgrammar-core/src/graph/animation/animate.ts
index d71bbc5..0908593 100644
--- a/packages/vgrammar-core/src/graph/animation/animate.ts
+++ b/packages/vgrammar-core/src/graph/animation/animate.ts
@@ -289,10 +289,6 @@ export class Animate implements IAnimate {
     });
 
     if (animatedElements.length) {
-      if (isNil(this.timelineCount[config.id])) {
-        this.timelineCount[config.id] = 0;
-      }
-
       if (config.timeline.sort) {
         animatedElements.sort((elementA, elementB) => {
           return config.timeline.sort(elementA.getDatum(), elementB.getDatum(), elementA, elementB, parameters);
@@ -322,6 +318,10 @@ export class Animate implements IAnimate {
             this.handleAnimatorEnd(animator, false);
           });
       });
+      // the count is removed when all former animators of the config are stopped
+      if (isNil(this.timelineCount[config.id])) {
+        this.timelineCount[config.id] = 0;
+      }
       // run animator
       animatedElements.forEach((element, index) => {
         animationParameters.elementIndex = index;
-- 
2.43.0


From 07467f307458f6e93d3839f081b6944baaa8e8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 083/151] fix: animations crashed at the end when their configs
 had been changed or executed again

---
 packages/vgrammar-core/src/graph/animation/animate.ts  | 7 ++-----
 packages/vgrammar-core/src/graph/animation/animator.ts | 7 +------
 packages/vgrammar-core/src/types/animate.ts            | 1 +
 3 files changed, 4 insertions(+), 11 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/animation/animate.ts b/packages/vgrammar-core/src/graph/animation/animate.ts
index 0908593..098a57a 100644
--- a/packages/vgrammar-core/src/graph/animation/animate.ts
+++ b/packages/vgrammar-core/src/graph/animation/animate.ts
@@ -516,14 +516,11 @@ export class Animate implements IAnimate {
     this.timelineCount[animationOptions.id] -= 1;
     const isLastAnimator = this.timelineCount[animationOptions.id] === 0;
 
-    const originAnimationConfig = isImmediateAnimation
-      ? this.immediateConfigs.find(config => config.id === animationOptions.id).originConfig
-      : this.configs.find(config => config.id === animationOptions.id).originConfig;
     if (isLastAnimator) {
       delete this.timelineCount[animationOptions.id];
       // delete config when immediate executed animation is finished
       if (isImmediateAnimation) {
-        this.immediateConfigs = this.immediateConfigs.filter(config => config.id !== animationOptions.id);
+        this.immediateConfigs = this.immediateConfigs.filter(config => config !== animationOptions);
       }
     }
 
@@ -540,7 +537,7 @@ export class Animate implements IAnimate {
     const animationEvent: AnimationEvent = {
       mark: this.mark,
       animationState,
-      animationConfig: originAnimationConfig
+      animationConfig: animationOptions.originConfig
     };
     if (isLastAnimator) {
       this.mark.emit(HOOK_EVENT.ANIMATION_END, animationEvent);
diff --git a/packages/vgrammar-core/src/graph/animation/animator.ts b/packages/vgrammar-core/src/graph/animation/animator.ts
index 900a255..020381e 100644
--- a/packages/vgrammar-core/src/graph/animation/animator.ts
+++ b/packages/vgrammar-core/src/graph/animation/animator.ts
@@ -5,7 +5,6 @@ import { ACustomAnimate, Animate, AnimateGroup, AnimateMode, AnimateStatus } fro
 import type {
   IAnimationChannelInterpolator,
   IAnimationCustomConstructor,
-  IAnimationTimeline,
   IAnimator,
   IAnimatorOptions,
   IAnimationUnit,
@@ -49,11 +48,7 @@ export class Animator implements IAnimator {
   constructor(
     element: IElement,
     unit: IAnimationUnit,
-    animationOptions: {
-      state: string;
-      timeline: IAnimationTimeline;
-      id: string;
-    }
+    animationOptions: IAnimatorOptions
   ) {
     this.element = element;
     this.animationOptions = animationOptions;
diff --git a/packages/vgrammar-core/src/types/animate.ts b/packages/vgrammar-core/src/types/animate.ts
index 9cc4e59..3b79562 100644
--- a/packages/vgrammar-core/src/types/animate.ts
+++ b/packages/vgrammar-core/src/types/animate.ts
@@ -260,6 +260,7 @@ export interface IParsedAnimationAttrs {
 export interface IAnimatorOptions {
   state: string;
   timeline: IAnimationTimeline;
+  originConfig: IAnimationConfig;
   id: string;
 }
 
-- 
2.43.0


From 292ae6c38f936215787f3d16fb28010e3104eab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 084/151] fix: isElementAnimating was the wrong way round

---
 packages/vgrammar-core/src/graph/animation/animate.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/graph/animation/animate.ts b/packages/vgrammar-core/src/graph/animation/animate.ts
index 098a57a..0c42c1c 100644
--- a/packages/vgrammar-core/src/graph/animation/animate.ts
+++ b/packages/vgrammar-core/src/graph/animation/animate.ts
@@ -200,7 +200,7 @@ export class Animate implements IAnimate {
 
   isElementAnimating(element: IElement) {
     const stateAnimationCounts = this.elementRecorder.get(element)?.count;
-    return isNil(stateAnimationCounts) || Object.values(stateAnimationCounts).every(count => count === 0);
+    return !isNil(stateAnimationCounts) && Object.values(stateAnimationCounts).some(count => count > 0);
   }
 
   getAnimatorCount() {
-- 
2.43.0


From 59b30f452c244ddaa796d5d9373f0f2d58087349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 085/151] fix: released views did not stop listening to
 animations

---
 packages/vgrammar-core/src/view/animate.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/view/animate.ts b/packages/vgrammar-core/src/view/animate.ts
index c3db727..8f33ee7 100644
--- a/packages/vgrammar-core/src/view/animate.ts
+++ b/packages/vgrammar-core/src/view/animate.ts
@@ -152,8 +152,8 @@ export class ViewAnimate implements IViewAnimate {
   release() {
     this._additionalAnimateMarks = [];
     this._animations = [];
-    this._view.removeEventListener(HOOK_EVENT.ALL_ANIMATION_START, this._onAnimationStart);
-    this._view.removeEventListener(HOOK_EVENT.ALL_ANIMATION_END, this._onAnimationEnd);
+    this._view.removeEventListener(HOOK_EVENT.ANIMATION_START, this._onAnimationStart);
+    this._view.removeEventListener(HOOK_EVENT.ANIMATION_END, this._onAnimationEnd);
     this._view = null;
   }
 }
-- 
2.43.0


From a72885da7df6b58858127efd8a45c077a3969521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 086/151] fix: exiting elements stayed when animations of the
 view are disabled

---
 packages/vgrammar-core/src/view/animate.ts | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/packages/vgrammar-core/src/view/animate.ts b/packages/vgrammar-core/src/view/animate.ts
index 8f33ee7..532894d 100644
--- a/packages/vgrammar-core/src/view/animate.ts
+++ b/packages/vgrammar-core/src/view/animate.ts
@@ -102,13 +102,9 @@ export class ViewAnimate implements IViewAnimate {
   }
 
   animate() {
-    if (!this.isEnabled) {
-      return this;
-    }
-
     this._view.traverseMarkTree(
       mark => {
-        if (mark.isUpdated && mark.animate) {
+        if (this.isEnabled && mark.isUpdated && mark.animate) {
           mark.animate.animate();
         }
         mark.cleanExitElements();
-- 
2.43.0


From a326f344642730f7c1304dd4f4ec1a20d0f96a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:36 +0000
Subject: [PATCH 087/151] fix: animations of removed elements went on in marks
 without animation configs

---
 packages/vgrammar-core/src/graph/animation/animate.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/graph/animation/animate.ts b/packages/vgrammar-core/src/graph/animation/animate.ts
index 0c42c1c..9de1a42 100644
--- a/packages/vgrammar-core/src/graph/animation/animate.ts
+++ b/packages/vgrammar-core/src/graph/animation/animate.ts
@@ -61,7 +61,8 @@ export class Animate implements IAnimate {
   }
 
   animate() {
-    if (!this.isEnabled || !this.configs || !this.configs.length) {
+    // animations which are executed at runtime should also be handled
+    if (!this.isEnabled || !this.configs || (!this.configs.length && !this.animators.size)) {
       return;
     }
 
-- 
2.43.0


From 19a42e1c1e9b01b44532eb5e415eea10f10cf3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 088/151] fix: events between others were bound wrongly when
 types are shared or the same events start and end

---
 .../src/view/view-event-mixin.ts              | 39 ++++++++-----------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/packages/vgrammar-core/src/view/view-event-mixin.ts b/packages/vgrammar-core/src/view/view-event-mixin.ts
index e59fe81..4e732e6 100644
--- a/packages/vgrammar-core/src/view/view-event-mixin.ts
+++ b/packages/vgrammar-core/src/view/view-event-mixin.ts
@@ -13,7 +13,6 @@ import View from './View';
 
 class ViewEventsMixin {
   private _eventConfig: IViewEventConfig;
-  private _eventCache: Record<string, () => void>;
   private _eventListeners: Array<{
     type: string;
     source: any;
@@ -23,35 +22,29 @@ class ViewEventsMixin {
   event(eventSpec: EventSpec) {
     if ('between' in eventSpec) {
       const [starEvent, endEvent] = eventSpec.between;
-      // FIXME between需要生成唯一ID
-      const id = `${starEvent.type}-${eventSpec.type}-${endEvent.type}`;
-
+      let isBetween = false;
+      let unbindEvent: any;
       let unbindEndEvent: any;
 
       this.bindEvents(
         Object.assign({}, starEvent, {
           callback: () => {
-            if (!this._eventCache) {
-              this._eventCache = {};
+            if (isBetween) {
+              return;
             }
+            isBetween = true;
             // 中间的事件绑定
-            if (!this._eventCache[id]) {
-              const unbindEvent = this.bindEvents(eventSpec);
-              this._eventCache[id] = unbindEvent;
-            }
-            if (!unbindEndEvent) {
-              // 结束的事件绑定
-              unbindEndEvent = this.bindEvents(
-                Object.assign({}, endEvent, {
-                  callback: () => {
-                    if (this._eventCache[id]) {
-                      this._eventCache[id]();
-                      this._eventCache[id] = null;
-                    }
-                  }
-                })
-              );
-            }
+            unbindEvent = this.bindEvents(eventSpec);
+            // 结束的事件绑定
+            unbindEndEvent = this.bindEvents(
+              Object.assign({}, endEvent, {
+                callback: () => {
+                  unbindEvent?.();
+                  unbindEndEvent?.();
+                  isBetween = false;
+                }
+              })
+            );
           }
         })
       );
-- 
2.43.0


From 3cae4db7aa55766955ce88f222241075087c0a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 089/151] fix: debounced and throttled events were filtered
 after the delay, and filtered events were consumed

---
 .../src/view/view-event-mixin.ts              | 46 ++++++++++++-------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/packages/vgrammar-core/src/view/view-event-mixin.ts b/packages/vgrammar-core/src/view/view-event-mixin.ts
index 4e732e6..f53bc4d 100644
--- a/packages/vgrammar-core/src/view/view-event-mixin.ts
+++ b/packages/vgrammar-core/src/view/view-event-mixin.ts
@@ -97,19 +97,15 @@ class ViewEventsMixin {
     const validateSignals = targetSignals.filter(entry => entry.signal || entry.callback);
     const refs = parseReference(dependency, this as unknown as IView);
 
-    const send = parseHandler(
+    const handle = parseHandler(
       (evt?: any) => {
-        const needPreventDefault =
-          (source === EVENT_SOURCE_VIEW && prevent(this._eventConfig, type)) ||
-          (consume && (evt.cancelable === undefined || evt.cancelable));
-
-        if (source === EVENT_SOURCE_WINDOW) {
-          evt = getExtendedEvents(this as unknown as IView, evt, type, EVENT_SOURCE_WINDOW);
+        // the view might be released during the delay of the event
+        if (!this._eventListeners) {
+          return;
         }
-
         let hasCommitted = false;
 
-        if ((!filter || filter(evt)) && (!markFilter || markFilter(evt.element)) && validateSignals.length) {
+        if (validateSignals.length) {
           const params = refs.reduce((params, ref) => {
             params[ref.id()] = ref.output();
             return params;
@@ -131,14 +127,6 @@ class ViewEventsMixin {
           });
         }
 
-        if (needPreventDefault) {
-          evt.preventDefault();
-        }
-
-        if (consume) {
-          evt.stopPropagation();
-        }
-
         if (hasCommitted) {
           (this as unknown as IView).run();
         }
@@ -146,6 +134,30 @@ class ViewEventsMixin {
       { throttle, debounce }
     );
 
+    const send = (evt?: any) => {
+      if (source === EVENT_SOURCE_WINDOW) {
+        evt = getExtendedEvents(this as unknown as IView, evt, type, EVENT_SOURCE_WINDOW);
+      }
+
+      const isMatched = (!markFilter || markFilter(evt.element)) && (!filter || filter(evt));
+      const needConsume = consume && isMatched;
+      const needPreventDefault =
+        (source === EVENT_SOURCE_VIEW && prevent(this._eventConfig, type)) ||
+        (needConsume && (evt.cancelable === undefined || evt.cancelable));
+
+      if (isMatched) {
+        handle(evt);
+      }
+
+      if (needPreventDefault) {
+        evt.preventDefault();
+      }
+
+      if (needConsume) {
+        evt.stopPropagation();
+      }
+    };
+
     if (source === EVENT_SOURCE_VIEW) {
       if (permit(this._eventConfig, EVENT_SOURCE_VIEW, type)) {
         // send traps errors, so use {trap: false} option
-- 
2.43.0


From 8c3d00dfc5de5b25cbd233f9ac77597e859023e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:10 +0000
Subject: [PATCH 090/151] fix: selections kept elements whose mark does not
 define the state, ended at once with several triggers, and broke by graphic
 name

---
 .../element-select-by-graphic-name.ts         | 21 ++++++++--------
 .../src/interactions/element-select.ts        | 24 +++++++++++++------
 2 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/element-select-by-graphic-name.ts b/packages/vgrammar-core/src/interactions/element-select-by-graphic-name.ts
index 5d37f74..ae2d500 100644
--- a/packages/vgrammar-core/src/interactions/element-select-by-graphic-name.ts
+++ b/packages/vgrammar-core/src/interactions/element-select-by-graphic-name.ts
@@ -1,20 +1,21 @@
-import type { InteractionEvent } from '../types';
+import type { IElement, IGlyphElement, InteractionEvent } from '../types';
 import { ElementSelect } from './element-select';
 
 export class ElementSelectByGraphicName extends ElementSelect {
   static type: string = 'element-select-by-graphic-name';
   type: string = ElementSelectByGraphicName.type;
 
-  start(element: InteractionEvent['element']) {
+  protected getRelatedElements(element: IElement | IGlyphElement) {
     const name = element.getGraphicItem()?.name;
-    if (name) {
-      this._marks.forEach(mark => {
-        mark.elements.forEach(el => {
-          if (el.getGraphicItem()?.name === name) {
-            super.start(el);
-          }
-        });
-      });
+
+    return this._marks.reduce((elements, mark) => {
+      return elements.concat(mark.elements.filter(el => el.getGraphicItem()?.name === name));
+    }, [] as (IElement | IGlyphElement)[]);
+  }
+
+  start(element: InteractionEvent['element']) {
+    if (!element || element.getGraphicItem()?.name) {
+      super.start(element);
     }
   }
 }
diff --git a/packages/vgrammar-core/src/interactions/element-select.ts b/packages/vgrammar-core/src/interactions/element-select.ts
index e04afea..48caa0d 100644
--- a/packages/vgrammar-core/src/interactions/element-select.ts
+++ b/packages/vgrammar-core/src/interactions/element-select.ts
@@ -1,4 +1,4 @@
-import { isArray } from '@visactor/vutils';
+import { array, isArray, isNumber } from '@visactor/vutils';
 import { InteractionStateEnum } from '../graph/enums';
 import type {
   ElementSelectOptions,
@@ -94,14 +94,23 @@ export class ElementSelect extends BaseInteraction<ElementSelectOptions> {
     }
   };
 
+  /**
+   * the elements which are selected together with the specified element
+   */
+  protected getRelatedElements(element: IElement | IGlyphElement): (IElement | IGlyphElement)[] {
+    return [element];
+  }
+
   start(element: InteractionEvent['element']) {
     const { state, reverseState, isMultiple } = this.options;
     if (element && this._marks && this._marks.includes(element.mark)) {
-      if (element.hasState(state)) {
+      const relatedElements = this.getRelatedElements(element);
+
+      if (this._statedElements && this._statedElements.includes(element)) {
         if (this._resetType.includes('self')) {
-          const newStatedElements = this._statedElements && this._statedElements.filter(el => el !== element);
+          const newStatedElements = this._statedElements.filter(el => !relatedElements.includes(el));
 
-          if (newStatedElements && newStatedElements.length) {
+          if (newStatedElements.length) {
             this._statedElements = this.updateStates(newStatedElements, this._statedElements, state, reverseState);
           } else {
             this.resetAll();
@@ -111,10 +120,11 @@ export class ElementSelect extends BaseInteraction<ElementSelectOptions> {
         if (this._timer) {
           clearTimeout(this._timer);
         }
-        element.addState(state);
 
         this._statedElements = this.updateStates(
-          isMultiple && this._statedElements ? [...this._statedElements, element] : [element],
+          isMultiple && this._statedElements
+            ? [...this._statedElements.filter(el => !relatedElements.includes(el)), ...relatedElements]
+            : relatedElements,
           this._statedElements,
           state,
           reverseState
@@ -124,7 +134,7 @@ export class ElementSelect extends BaseInteraction<ElementSelectOptions> {
         if (this._resetType.includes('timeout')) {
           this._timer = setTimeout(() => {
             this.resetAll();
-          }, this.options.triggerOff as number) as unknown as number;
+          }, array(this.options.triggerOff).find(off => isNumber(off)) as number) as unknown as number;
         }
       }
     } else if (this._resetType.includes('view') && this._statedElements && this._statedElements.length) {
-- 
2.43.0


From e31b552c25d487c21878040af9c18bafca247e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 091/151] fix: interactions took elements which had been reset
 for highlighted and selected ones

---
 .../vgrammar-core/src/interactions/element-highlight.ts    | 4 +++-
 packages/vgrammar-core/src/interactions/element-select.ts  | 7 +++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/interactions/element-highlight.ts b/packages/vgrammar-core/src/interactions/element-highlight.ts
index 542d546..61013ec 100644
--- a/packages/vgrammar-core/src/interactions/element-highlight.ts
+++ b/packages/vgrammar-core/src/interactions/element-highlight.ts
@@ -100,7 +100,9 @@ export class ElementHighlight extends BaseInteraction<ElementHighlightOptions> {
   }
 
   reset(element: InteractionEvent['element']) {
-    if (element) {
+    if (element && element === this._lastElement) {
+      this.resetAll();
+    } else if (element) {
       if (this._marks && this._marks.includes(element.mark)) {
         element.removeState([this.options.highlightState, this.options.blurState]);
       }
diff --git a/packages/vgrammar-core/src/interactions/element-select.ts b/packages/vgrammar-core/src/interactions/element-select.ts
index 48caa0d..debdee1 100644
--- a/packages/vgrammar-core/src/interactions/element-select.ts
+++ b/packages/vgrammar-core/src/interactions/element-select.ts
@@ -144,6 +144,13 @@ export class ElementSelect extends BaseInteraction<ElementSelectOptions> {
 
   reset(element: InteractionEvent['element']) {
     if (element) {
+      if (this._statedElements && this._statedElements.includes(element)) {
+        if (this._statedElements.length === 1) {
+          this.resetAll();
+        } else {
+          this._statedElements = this._statedElements.filter(el => el !== element);
+        }
+      }
       if (this._marks && this._marks.includes(element.mark)) {
         element.removeState([this.options.state, this.options.reverseState]);
       }
-- 
2.43.0


From 162c2aa4eb952c5b85dc6c21fbd5a4d18f75616d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:16 +0000
Subject: [PATCH 092/151] fix: removed interactions went on handling events
 when their handlers are created on demand

---
 packages/vgrammar-core/src/interactions/base.ts | 7 ++++++-
 packages/vgrammar-core/src/view/View.ts         | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/interactions/base.ts b/packages/vgrammar-core/src/interactions/base.ts
index c0cc387..a51da15 100644
--- a/packages/vgrammar-core/src/interactions/base.ts
+++ b/packages/vgrammar-core/src/interactions/base.ts
@@ -22,6 +22,9 @@ export abstract class BaseInteraction<T extends IBaseInteractionOptions> {
 
   references: Map<IGrammarBase, number> = new Map();
 
+  /** the events which are bound now */
+  private _boundEvents: Array<{ type: string | string[]; handler: InteractionEventHandler }> = null;
+
   protected abstract getEvents(): Array<{ type: string | string[]; handler: InteractionEventHandler }>;
 
   getStartState(): string {
@@ -52,6 +55,7 @@ export abstract class BaseInteraction<T extends IBaseInteractionOptions> {
   bind() {
     const events = this.getEvents();
 
+    this._boundEvents = events;
     (events ?? []).forEach(evt => {
       if (evt.type && evt.handler) {
         if (isArray(evt.type)) {
@@ -67,8 +71,9 @@ export abstract class BaseInteraction<T extends IBaseInteractionOptions> {
 
   unbind() {
     // unbind events
-    const events = this.getEvents();
+    const events = this._boundEvents;
 
+    this._boundEvents = null;
     (events ?? []).forEach(evt => {
       if (evt.type && evt.handler) {
         if (isArray(evt.type)) {
diff --git a/packages/vgrammar-core/src/view/View.ts b/packages/vgrammar-core/src/view/View.ts
index d664821..9d6a86e 100644
--- a/packages/vgrammar-core/src/view/View.ts
+++ b/packages/vgrammar-core/src/view/View.ts
@@ -1206,6 +1206,7 @@ export default class View extends EventEmitter implements IView {
         instances.forEach(instance => {
           instance.unbind();
         });
+        this._boundInteractions = this._boundInteractions.filter(interaction => !instances.includes(interaction));
       }
     }
 
-- 
2.43.0


From b8c54bb1ab425e7f1262d3d623b903ab4057c4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:21 +0000
Subject: [PATCH 093/151] fix: filters of removed interactions went on
 filtering data

---
 .../src/interactions/brush-filter.ts          | 10 +++++++++-
 .../src/interactions/drill-down.ts            | 10 +++++++++-
 .../vgrammar-core/src/interactions/filter.ts  | 19 ++++++++++++++++++-
 3 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/brush-filter.ts b/packages/vgrammar-core/src/interactions/brush-filter.ts
index cb9c36f..0d1c1bd 100644
--- a/packages/vgrammar-core/src/interactions/brush-filter.ts
+++ b/packages/vgrammar-core/src/interactions/brush-filter.ts
@@ -6,7 +6,10 @@ import { DataFilterRank } from '../graph/enums';
 import type { FilterMixin } from './filter';
 
 export interface BrushFilter
-  extends Pick<FilterMixin, '_data' | '_filterValue' | '_dataFilter' | 'handleFilter' | '_filterData'>,
+  extends Pick<
+      FilterMixin,
+      '_data' | '_filterValue' | '_dataFilter' | 'handleFilter' | '_filterData' | '_removeDataFilter'
+    >,
     BrushBase<BrushFilterOptions> {}
 
 export class BrushFilter extends BrushBase<BrushFilterOptions> {
@@ -38,6 +41,11 @@ export class BrushFilter extends BrushBase<BrushFilterOptions> {
     return super.getEvents();
   }
 
+  unbind(): void {
+    super.unbind();
+    this._removeDataFilter?.();
+  }
+
   handleBrushUpdate = (event: {
     type: string;
     detail: {
diff --git a/packages/vgrammar-core/src/interactions/drill-down.ts b/packages/vgrammar-core/src/interactions/drill-down.ts
index 7caa0e2..f34cdb6 100644
--- a/packages/vgrammar-core/src/interactions/drill-down.ts
+++ b/packages/vgrammar-core/src/interactions/drill-down.ts
@@ -6,7 +6,10 @@ import { DataFilterRank } from '../graph/enums';
 import type { FilterMixin } from './filter';
 
 export interface DrillDown
-  extends Pick<FilterMixin, '_data' | '_filterValue' | '_dataFilter' | 'handleFilter' | '_filterData'>,
+  extends Pick<
+      FilterMixin,
+      '_data' | '_filterValue' | '_dataFilter' | 'handleFilter' | '_filterData' | '_removeDataFilter'
+    >,
     BrushBase<DrillDownOptions> {}
 
 export class DrillDown extends BrushBase<DrillDownOptions> {
@@ -49,6 +52,11 @@ export class DrillDown extends BrushBase<DrillDownOptions> {
     ];
   }
 
+  unbind(): void {
+    super.unbind();
+    this._removeDataFilter?.();
+  }
+
   handleBrushUpdate = (event: {
     type: string;
     detail: {
diff --git a/packages/vgrammar-core/src/interactions/filter.ts b/packages/vgrammar-core/src/interactions/filter.ts
index a2c50ba..f686e84 100644
--- a/packages/vgrammar-core/src/interactions/filter.ts
+++ b/packages/vgrammar-core/src/interactions/filter.ts
@@ -9,6 +9,7 @@ export interface FilterMixin {
   _filterValue: any;
   _dataFilter: IDataFilter;
   handleFilter: (event?: InteractionEvent) => void;
+  _removeDataFilter: () => void;
 }
 
 export class FilterMixin {
@@ -46,13 +47,24 @@ export class FilterMixin {
         }
       };
       dataGrammar.addDataFilter(this._dataFilter);
+
+      this._removeDataFilter = () => {
+        dataGrammar.removeDataFilter(this._dataFilter);
+        dataGrammar.commit();
+        this._dataFilter = null;
+        this._filterValue = null;
+        this._removeDataFilter = null;
+      };
     }
     return this;
   }
 }
 
 export interface Filter
-  extends Pick<FilterMixin, '_data' | '_marks' | '_filterValue' | '_dataFilter' | 'handleFilter' | '_filterData'>,
+  extends Pick<
+      FilterMixin,
+      '_data' | '_marks' | '_filterValue' | '_dataFilter' | 'handleFilter' | '_filterData' | '_removeDataFilter'
+    >,
     BaseInteraction<DataFilterOptions> {}
 
 export abstract class Filter extends BaseInteraction<DataFilterOptions> {
@@ -65,4 +77,9 @@ export abstract class Filter extends BaseInteraction<DataFilterOptions> {
       this._data = isString(options.target.data) ? view.getDataById(options.target.data) : options.target.data;
     }
   }
+
+  unbind() {
+    super.unbind();
+    this._removeDataFilter?.();
+  }
 }
-- 
2.43.0


From 81a506a258dd1ffab91a4dd08618ec1d1fb425d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:23 +0000
Subject: [PATCH 094/151] fix: roll-up could not be reset, and failed without
 transform

---
 packages/vgrammar-core/src/interactions/roll-up.ts | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/roll-up.ts b/packages/vgrammar-core/src/interactions/roll-up.ts
index 2c045ce..35856f9 100644
--- a/packages/vgrammar-core/src/interactions/roll-up.ts
+++ b/packages/vgrammar-core/src/interactions/roll-up.ts
@@ -36,12 +36,7 @@ export class RollUp extends Filter {
 
     const transform = this.options.target.transform;
 
-    const getFilterValue = (event: InteractionEvent) => event?.element?.getDatum?.();
-    const dataTransform = (data: any[], filterValue: any) => {
-      return transform(data, filterValue);
-    };
-
-    this._filterData(this._data, null, DataFilterRank.rollUp, getFilterValue, undefined, dataTransform);
+    this._filterData(this._data, null, DataFilterRank.rollUp, null, undefined, transform);
 
     const events = [
       {
@@ -76,11 +71,11 @@ export class RollUp extends Filter {
       const filterValue = event.element?.getDatum?.();
 
       const isEqualFilterValue =
-        filterValue === this._filterData ||
+        filterValue === this._filterValue ||
         (isArray(filterValue) &&
           isArray(this._filterValue) &&
           filterValue.length === this._filterValue.length &&
-          filterValue.every(datum => !this._filterValue.includes(datum)));
+          filterValue.every(datum => this._filterValue.includes(datum)));
 
       if (isEqualFilterValue) {
         // reset filter value when toggle is enabled
@@ -89,8 +84,11 @@ export class RollUp extends Filter {
           this.handleFilter(event);
         }
       } else {
+        this._filterValue = filterValue;
         this.handleFilter(event);
       }
+    } else if (this.options.triggerOff === 'empty' || this.options.triggerOff === `view:${this.options.trigger}`) {
+      this.handleReset(event);
     }
   };
 
-- 
2.43.0


From b63220dd3c3d25e1c7c941f3bfca7de4aca5d7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:27 +0000
Subject: [PATCH 095/151] fix: all data disappeared when brushes which filter
 them were cleared

---
 packages/vgrammar-core/src/interactions/brush-filter.ts | 8 +++++++-
 packages/vgrammar-core/src/interactions/drill-down.ts   | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/brush-filter.ts b/packages/vgrammar-core/src/interactions/brush-filter.ts
index 0d1c1bd..9e5bb78 100644
--- a/packages/vgrammar-core/src/interactions/brush-filter.ts
+++ b/packages/vgrammar-core/src/interactions/brush-filter.ts
@@ -1,3 +1,4 @@
+import { IOperateType } from '@visactor/vrender-components';
 import type { IPolygon } from '@visactor/vrender-core';
 import type { BrushFilterOptions, IElement, IGlyphElement, IView } from '../types';
 import { BrushBase } from './brush-base';
@@ -68,7 +69,12 @@ export class BrushFilter extends BrushBase<BrushFilterOptions> {
       });
     });
 
-    if (this._data) {
+    if (this._data && event.type === IOperateType.brushClear) {
+      if (this._filterValue) {
+        this._filterValue = null;
+        this.handleFilter();
+      }
+    } else if (this._data) {
       // remove repeated datum
       filterValue = Array.from(new Set(filterValue));
 
diff --git a/packages/vgrammar-core/src/interactions/drill-down.ts b/packages/vgrammar-core/src/interactions/drill-down.ts
index f34cdb6..03fbde4 100644
--- a/packages/vgrammar-core/src/interactions/drill-down.ts
+++ b/packages/vgrammar-core/src/interactions/drill-down.ts
@@ -1,3 +1,4 @@
+import { IOperateType } from '@visactor/vrender-components';
 import type { IPolygon } from '@visactor/vrender-core';
 import type { DrillDownOptions, IElement, IGlyphElement, IView, InteractionEvent } from '../types';
 import { BrushBase } from './brush-base';
@@ -79,7 +80,12 @@ export class DrillDown extends BrushBase<DrillDownOptions> {
       });
     });
 
-    if (this._data) {
+    if (this._data && event.type === IOperateType.brushClear) {
+      if (this._filterValue) {
+        this._filterValue = null;
+        this.handleFilter();
+      }
+    } else if (this._data) {
       // remove repeated datum
       filterValue = Array.from(new Set(filterValue));
 
-- 
2.43.0


From a2ddd7feaaf5fe8e87580cbfe66b604970164960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:10 +0000
Subject: [PATCH 096/151] fix: removing brush interactions, or releasing views
 with them, crashed

---
 packages/vgrammar-core/src/interactions/brush-base.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/interactions/brush-base.ts b/packages/vgrammar-core/src/interactions/brush-base.ts
index 6f7191b..f8ccdcd 100644
--- a/packages/vgrammar-core/src/interactions/brush-base.ts
+++ b/packages/vgrammar-core/src/interactions/brush-base.ts
@@ -186,8 +186,8 @@ export abstract class BrushBase<T extends BrushOptions> extends BaseInteraction<
     const stage = this.view.renderer.stage();
 
     if (this._brushComp && stage) {
-      stage.defaultLayer.removeChild(this._brushComp as any);
       this._brushComp.releaseBrushEvents();
+      stage.defaultLayer.removeChild(this._brushComp as any);
       this._brushComp.release();
       this._brushComp = null;
     }
-- 
2.43.0


From b1dd7370714bcbbbdff4f5bc1d7fc249d32ab85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:14 +0000
Subject: [PATCH 097/151] fix: filters of scrollbars without scales crashed

---
 packages/vgrammar-core/src/interactions/scrollbar-filter.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/vgrammar-core/src/interactions/scrollbar-filter.ts b/packages/vgrammar-core/src/interactions/scrollbar-filter.ts
index c67b738..8960d14 100644
--- a/packages/vgrammar-core/src/interactions/scrollbar-filter.ts
+++ b/packages/vgrammar-core/src/interactions/scrollbar-filter.ts
@@ -56,6 +56,9 @@ export class ScrollbarFilter extends Filter {
     const dataFilter = isString(filter)
       ? (datum: any, filterValue: ScrollbarFilterValue) => {
           const scaleGrammar = scrollbar.getScale();
+          if (!scaleGrammar) {
+            return true;
+          }
           const scale = scaleGrammar.getScale();
           const range = scale.range();
           const datumRatio = (scale.scale(datum[filter]) - range[0]) / (range[range.length - 1] - range[0]);
-- 
2.43.0


From 33c07ca17a563eab6df5b35228e66bbfdfb68937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:00 +0000
Subject: [PATCH 098/151] fix: progressive marks disappeared when anything else
 was changed, or lost elements when they became small

---
 packages/vgrammar-core/src/view/View.ts | 12 +++++++++---
 packages/vgrammar-core/src/view/mark.ts |  1 +
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/packages/vgrammar-core/src/view/View.ts b/packages/vgrammar-core/src/view/View.ts
index 9d6a86e..3156dae 100644
--- a/packages/vgrammar-core/src/view/View.ts
+++ b/packages/vgrammar-core/src/view/View.ts
@@ -856,7 +856,8 @@ export default class View extends EventEmitter implements IView {
       return this;
     }
 
-    this.clearProgressive();
+    // marks which will be evaluated clear their own progressive context, others just go on
+    this.stopProgressiveFrame();
 
     // evaluate dataflow
     this._dataflow.evaluate();
@@ -1420,12 +1421,17 @@ export default class View extends EventEmitter implements IView {
     this.doPreProgressive();
   };
 
-  /** 清除 */
-  private clearProgressive() {
+  private stopProgressiveFrame() {
     if (this._progressiveRafId) {
       const cancelRaf = vglobal.getCancelAnimationFrame();
       cancelRaf(this._progressiveRafId);
+      this._progressiveRafId = null;
     }
+  }
+
+  /** 清除 */
+  private clearProgressive() {
+    this.stopProgressiveFrame();
 
     if (this._progressiveMarks && this._progressiveMarks.length) {
       this._progressiveMarks.forEach(entry => {
diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index 36c7bab..54a47ff 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -257,6 +257,7 @@ export class Mark extends GrammarBase implements IMark {
 
     const stage = this.view.renderer?.stage();
 
+    this.clearProgressive();
     this.init(stage, parameters);
     const transformData = this.evaluateTransform(this._getTransformsBeforeJoin(), data ?? DefaultMarkData, parameters);
     const progressiveTransform = transformData?.progressive;
-- 
2.43.0


From df683fe305de116bb43fba327e30ee805c9884f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:04 +0000
Subject: [PATCH 099/151] fix: progressive rendering of lines duplicated
 elements, kept the last rows only and failed for uneven groups

---
 packages/vgrammar-core/src/view/mark.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index 54a47ff..1936d7d 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -1050,9 +1050,11 @@ export class Mark extends GrammarBase implements IMark {
           element.diffState = DiffState.enter;
           element.updateData(key as string, dataSlice, keyGetter);
           elements.push(element);
-        } else {
+        } else if (dataSlice.length) {
           const element = this.elements[index];
           element.updateData(key as string, dataSlice, keyGetter);
+          // only the new rows are encoded, but the element consists of all the rows shown so far
+          element.data = data.slice(0, (currentIndex + 1) * groupStep);
           elements.push(element);
         }
       });
@@ -1159,7 +1161,7 @@ export class Mark extends GrammarBase implements IMark {
       });
 
       this.elements = elements;
-    } else {
+    } else if (!this.isCollectionMark()) {
       this.elements = this.elements.concat(elements);
     }
 
-- 
2.43.0


From c69f4b1f3be5c234942037c2c87932a66c4528d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 100/151] fix: marks with progressive transforms which finish
 at once were not grouped

---
 packages/vgrammar-core/src/view/mark.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index 1936d7d..fe99d0d 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -284,6 +284,7 @@ export class Mark extends GrammarBase implements IMark {
           this.update(this.spec);
           return this;
         }
+        this.evaluateGroup(inputData);
       } else {
         inputData = transformData;
       }
-- 
2.43.0


From c1a425d9a35850e2a73eeff648191460a8ab17a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:59 +0000
Subject: [PATCH 101/151] fix: elements of progressive transforms disappeared,
 or stayed, after later updates

---
 packages/vgrammar-core/src/view/View.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/vgrammar-core/src/view/View.ts b/packages/vgrammar-core/src/view/View.ts
index 3156dae..bf55476 100644
--- a/packages/vgrammar-core/src/view/View.ts
+++ b/packages/vgrammar-core/src/view/View.ts
@@ -1403,7 +1403,9 @@ export default class View extends EventEmitter implements IView {
       this._progressiveMarks.every(mark => mark.canAnimateAfterProgressive())
     ) {
       this.animate.animate();
+      this._progressiveMarks.forEach(mark => mark.handleRenderEnd());
     } else if (this._progressiveMarks) {
+      this._progressiveMarks.forEach(mark => mark.handleRenderEnd());
       this._progressiveMarks = null;
     }
   }
-- 
2.43.0


From 2f652d35d34fb7e9208a3df5c7ae8139287cce0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:03 +0000
Subject: [PATCH 102/151] fix: lines with progressive transforms accumulated
 the points of all frames

---
 packages/vgrammar-core/src/graph/element.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/graph/element.ts b/packages/vgrammar-core/src/graph/element.ts
index cb1fe34..fb434cf 100644
--- a/packages/vgrammar-core/src/graph/element.ts
+++ b/packages/vgrammar-core/src/graph/element.ts
@@ -609,7 +609,8 @@ export class Element implements IElement {
       const enableSegments = markSpec.enableSegments;
       const connectNullsEncoder = (this.mark.getSpec() as MarkSpec).encode?.[BuiltInEncodeNames.connectNulls];
       const itemNextAttrs = items.map(item => item.nextAttrs);
-      const isProgressive = this.mark.isProgressive();
+      // the items of one element are only divided when the rendering is progressive
+      const isProgressive = !!(this.mark as any).renderContext?.progressive;
       nextAttrs = parseCollectionMarkAttributes(nextAttrs);
 
       if (markType === GrammarMarkType.line || markType === GrammarMarkType.area) {
-- 
2.43.0


From a08f1147b22ed68e30bbae99b4fd767f306ac1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:54 +0000
Subject: [PATCH 103/151] fix: start arrows of vertical tree paths were drawn
 as a single stroke

---
 packages/vgrammar-core/src/glyph/tree-path.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/glyph/tree-path.ts b/packages/vgrammar-core/src/glyph/tree-path.ts
index 9383740..bcf41c1 100644
--- a/packages/vgrammar-core/src/glyph/tree-path.ts
+++ b/packages/vgrammar-core/src/glyph/tree-path.ts
@@ -101,7 +101,7 @@ export const getVerticalPath = (options: TreePathEncoderSpec) => {
           )},${formatter(y1 - sign * arrowSize)}`
         : '';
       const startArrowPath = options.startArrow
-        ? `M${formatter(x0 + arrowSize)},${formatter(y0 + sign * arrowSize)}L${x0},${formatter(y0)}L${formatter(
+        ? `M${formatter(x0 - arrowSize)},${formatter(y0 + sign * arrowSize)}L${x0},${formatter(y0)}L${formatter(
             x0 + arrowSize
           )},${formatter(y0 + sign * arrowSize)}`
         : '';
-- 
2.43.0


From af641118d908489b901938ab19efe23aa861deba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:57 +0000
Subject: [PATCH 104/151] fix: ripple points without ripple channel had no
 valid size

---
 packages/vgrammar-core/src/glyph/ripple.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/glyph/ripple.ts b/packages/vgrammar-core/src/glyph/ripple.ts
index 9e8ce2e..9ef82f5 100644
--- a/packages/vgrammar-core/src/glyph/ripple.ts
+++ b/packages/vgrammar-core/src/glyph/ripple.ts
@@ -12,7 +12,7 @@ export const registerRippleGlyph = () => {
   })
     .registerFunctionEncoder((encodeValues: RipplePointEncoderSpec, datum: any, element: IElement, config: any) => {
       // ripple value should be between 0 and 1
-      const ripple = Math.max(0, Math.min(encodeValues.ripple, 1));
+      const ripple = Math.max(0, Math.min(encodeValues.ripple ?? 0, 1));
       const size = encodeValues.size ?? element.getGraphicAttribute('size');
       const rippleSize = size * 0.5;
       return {
-- 
2.43.0


From 2aebc346e26cd8015f1a8aec397fb8ad3fff42cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:00 +0000
Subject: [PATCH 105/151] fix: states of glyph elements kept the attributes of
 former data and definitions

---
 packages/vgrammar-core/src/graph/glyph-element.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/vgrammar-core/src/graph/glyph-element.ts b/packages/vgrammar-core/src/graph/glyph-element.ts
index 3d31fb4..1e5acca 100644
--- a/packages/vgrammar-core/src/graph/glyph-element.ts
+++ b/packages/vgrammar-core/src/graph/glyph-element.ts
@@ -137,6 +137,7 @@ export class GlyphElement extends Element implements IGlyphElement {
       this.graphicItem.clearStates();
       // 更新数据流后，states计算不缓存
       this.graphicItem.states = {};
+      this.graphicItem.glyphStates = null;
       this.graphicItem.stateProxy = null;
     }
 
-- 
2.43.0


From 6c4a9010f26c17830b74c5f7c5a090a092375fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:04 +0000
Subject: [PATCH 106/151] fix: anchors of rotated box plots and violins did not
 follow later changes, or were wrong for horizontal bar box plots

---
 packages/vgrammar-core/src/glyph/boxplot.ts | 43 ++++++++++-----------
 packages/vgrammar-core/src/glyph/violin.ts  | 14 +------
 2 files changed, 22 insertions(+), 35 deletions(-)

diff --git a/packages/vgrammar-core/src/glyph/boxplot.ts b/packages/vgrammar-core/src/glyph/boxplot.ts
index 2fadede..3ee6d34 100644
--- a/packages/vgrammar-core/src/glyph/boxplot.ts
+++ b/packages/vgrammar-core/src/glyph/boxplot.ts
@@ -1,4 +1,4 @@
-import { isValidNumber } from '@visactor/vutils';
+import { isNil, isValidNumber } from '@visactor/vutils';
 import type {
   BarBoxPlotEncoderSpec,
   BoxPlotEncoderSpec,
@@ -166,6 +166,23 @@ const computeBoxplotCenter = (
   return NaN;
 };
 
+/** all the rotated parts share one anchor, which depends on several channels */
+export const assignRotation = (
+  attributes: Record<string, any>,
+  encodeValues: any,
+  config: any,
+  parts: string[] = Object.keys(attributes)
+) => {
+  const { x, y, min, max, angle } = encodeValues;
+  if (isNil(angle)) {
+    return;
+  }
+  const defaultAnchor = config && isHorizontal(config.direction) ? [(min + max) / 2, y] : [x, (min + max) / 2];
+  parts.forEach(part => {
+    Object.assign(attributes[part], { angle, anchor: encodeValues.anchor ?? defaultAnchor });
+  });
+};
+
 const encodeBoxplotSize = (encodeValues: any, datum: any, element: IGlyphElement, config: any) => {
   const attributes = {
     shaft: {},
@@ -216,6 +233,7 @@ const encodeBoxplotSize = (encodeValues: any, datum: any, element: IGlyphElement
       Object.assign(attributes.min, { x: x - width / 2, x1: x + width / 2 });
     }
   }
+  assignRotation(attributes, encodeValues, config);
   return attributes;
 };
 
@@ -300,20 +318,6 @@ export function registerBoxplotGlyph() {
             median: { y: encodeValue, y1: encodeValue, visible: true }
           };
     })
-    .registerChannelEncoder('angle', (channel, encodeValue, encodeValues, datum, element, config) => {
-      const defaultAnchor =
-        config && isHorizontal(config.direction)
-          ? [(encodeValues.min + encodeValues.max) / 2, encodeValues.y]
-          : [encodeValues.x, (encodeValues.min + encodeValues.max) / 2];
-      const anchor = encodeValues.anchor ?? defaultAnchor;
-      return {
-        shaft: { angle: encodeValue, anchor },
-        box: { angle: encodeValue, anchor },
-        max: { angle: encodeValue, anchor },
-        min: { angle: encodeValue, anchor },
-        median: { angle: encodeValue, anchor }
-      };
-    })
     .registerDefaultEncoder(() => {
       return {
         max: { visible: false },
@@ -432,6 +436,7 @@ const encodeBarBoxplotSize = (encodeValues: any, datum: any, element: IGlyphElem
       Object.assign(attributes.median, { x: x - width / 2, x1: x + width / 2 });
     }
   }
+  assignRotation(attributes, encodeValues, config);
   return attributes;
 };
 
@@ -486,14 +491,6 @@ export function registerBarBoxplotGlyph() {
         ? { median: { x: encodeValue, x1: encodeValue, visible: true } }
         : { median: { y: encodeValue, y1: encodeValue, visible: true } };
     })
-    .registerChannelEncoder('angle', (channel, encodeValue, encodeValues, datum, element, config) => {
-      const anchor = encodeValues.anchor ?? [encodeValues.x, (encodeValues.min + encodeValues.max) / 2];
-      return {
-        minMaxBox: { angle: encodeValue, anchor },
-        q1q3Box: { angle: encodeValue, anchor },
-        median: { angle: encodeValue, anchor }
-      };
-    })
     .registerChannelEncoder('lineWidth', (channel, encodeValue, encodeValues, datum, element, config) => {
       return {
         minMaxBox: { lineWidth: 0 },
diff --git a/packages/vgrammar-core/src/glyph/violin.ts b/packages/vgrammar-core/src/glyph/violin.ts
index e335111..2550d82 100644
--- a/packages/vgrammar-core/src/glyph/violin.ts
+++ b/packages/vgrammar-core/src/glyph/violin.ts
@@ -11,6 +11,7 @@ import {
 } from '../graph/mark/graphic';
 import { isHorizontal } from '@visactor/vgrammar-util';
 import { registerGlyphMark } from '../view/glyph';
+import { assignRotation } from './boxplot';
 
 const defaultDensitySize = 30;
 
@@ -88,6 +89,7 @@ const encodeViolin = (encodeValues: any, datum: any, element: IGlyphElement, con
       Object.assign(attributes.box, { x: x - width / 2, x1: x + width / 2 });
     }
   }
+  assignRotation(attributes, encodeValues, config, ['shaft', 'box', 'median']);
   return attributes;
 };
 
@@ -132,18 +134,6 @@ export const registerViolinGlyph = () => {
         ? { median: { x: encodeValue, x1: encodeValue, visible: true } }
         : { median: { y: encodeValue, y1: encodeValue, visible: true } };
     })
-    .registerChannelEncoder('angle', (channel, encodeValue, encodeValues, datum, element, config) => {
-      const defaultAnchor =
-        config && isHorizontal(config.direction)
-          ? [(encodeValues.min + encodeValues.max) / 2, encodeValues.y]
-          : [encodeValues.x, (encodeValues.min + encodeValues.max) / 2];
-      const anchor = encodeValues.anchor ?? defaultAnchor;
-      return {
-        shaft: { angle: encodeValue, anchor },
-        box: { angle: encodeValue, anchor },
-        median: { angle: encodeValue, anchor }
-      };
-    })
     .registerChannelEncoder('medianFill', (channel, encodeValue, encodeValues, datum, element, config) => {
       return { median: { fill: encodeValue } };
     })
-- 
2.43.0


From db28a25769fabcec861f9d6a6799eda137d5d0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:33 +0000
Subject: [PATCH 107/151] fix: violins, waves and states of glyphs with sizes
 kept parts of former channels

---
 packages/vgrammar-core/src/glyph/boxplot.ts | 32 ++++++++++-----------
 packages/vgrammar-core/src/glyph/ripple.ts  |  2 +-
 packages/vgrammar-core/src/glyph/violin.ts  | 19 ++++++------
 packages/vgrammar-core/src/glyph/wave.ts    | 11 +++++--
 4 files changed, 35 insertions(+), 29 deletions(-)

diff --git a/packages/vgrammar-core/src/glyph/boxplot.ts b/packages/vgrammar-core/src/glyph/boxplot.ts
index 3ee6d34..9658f70 100644
--- a/packages/vgrammar-core/src/glyph/boxplot.ts
+++ b/packages/vgrammar-core/src/glyph/boxplot.ts
@@ -192,14 +192,14 @@ const encodeBoxplotSize = (encodeValues: any, datum: any, element: IGlyphElement
     median: {}
   };
 
-  const x = encodeValues.x ?? element.getGraphicAttribute('x', false);
-  const y = encodeValues.y ?? element.getGraphicAttribute('y', false);
-  const width = encodeValues.width ?? element.getGraphicAttribute('width', false);
-  const height = encodeValues.height ?? element.getGraphicAttribute('height', false);
-  const boxWidth = encodeValues.boxWidth ?? element.getGraphicAttribute('boxWidth', false);
-  const boxHeight = encodeValues.boxHeight ?? element.getGraphicAttribute('boxHeight', false);
-  const ruleWidth = encodeValues.ruleWidth ?? element.getGraphicAttribute('ruleWidth', false);
-  const ruleHeight = encodeValues.ruleHeight ?? element.getGraphicAttribute('ruleHeight', false);
+  const x = encodeValues.x;
+  const y = encodeValues.y;
+  const width = encodeValues.width;
+  const height = encodeValues.height;
+  const boxWidth = encodeValues.boxWidth;
+  const boxHeight = encodeValues.boxHeight;
+  const ruleWidth = encodeValues.ruleWidth;
+  const ruleHeight = encodeValues.ruleHeight;
 
   if (config && isHorizontal(config.direction)) {
     if (isValidNumber(boxHeight)) {
@@ -398,14 +398,14 @@ const encodeBarBoxplotSize = (encodeValues: any, datum: any, element: IGlyphElem
     median: {}
   };
 
-  const x = encodeValues.x ?? element.getGraphicAttribute('x', false);
-  const y = encodeValues.y ?? element.getGraphicAttribute('y', false);
-  const width = encodeValues.width ?? element.getGraphicAttribute('width', false);
-  const minMaxWidth = encodeValues.minMaxWidth ?? element.getGraphicAttribute('minMaxWidth', false);
-  const q1q3Width = encodeValues.q1q3Width ?? element.getGraphicAttribute('q1q3Width', false);
-  const height = encodeValues.height ?? element.getGraphicAttribute('height', false);
-  const minMaxHeight = encodeValues.minMaxHeight ?? element.getGraphicAttribute('minMaxHeight', false);
-  const q1q3Height = encodeValues.q1q3Height ?? element.getGraphicAttribute('q1q3Height', false);
+  const x = encodeValues.x;
+  const y = encodeValues.y;
+  const width = encodeValues.width;
+  const minMaxWidth = encodeValues.minMaxWidth;
+  const q1q3Width = encodeValues.q1q3Width;
+  const height = encodeValues.height;
+  const minMaxHeight = encodeValues.minMaxHeight;
+  const q1q3Height = encodeValues.q1q3Height;
 
   if (config && isHorizontal(config.direction)) {
     if (isValidNumber(minMaxHeight)) {
diff --git a/packages/vgrammar-core/src/glyph/ripple.ts b/packages/vgrammar-core/src/glyph/ripple.ts
index 9ef82f5..87b5866 100644
--- a/packages/vgrammar-core/src/glyph/ripple.ts
+++ b/packages/vgrammar-core/src/glyph/ripple.ts
@@ -13,7 +13,7 @@ export const registerRippleGlyph = () => {
     .registerFunctionEncoder((encodeValues: RipplePointEncoderSpec, datum: any, element: IElement, config: any) => {
       // ripple value should be between 0 and 1
       const ripple = Math.max(0, Math.min(encodeValues.ripple ?? 0, 1));
-      const size = encodeValues.size ?? element.getGraphicAttribute('size');
+      const size = encodeValues.size;
       const rippleSize = size * 0.5;
       return {
         ripple0: { size: size + rippleSize * ripple, fillOpacity: 0.75 - ripple * 0.25 },
diff --git a/packages/vgrammar-core/src/glyph/violin.ts b/packages/vgrammar-core/src/glyph/violin.ts
index 2550d82..c9e86f6 100644
--- a/packages/vgrammar-core/src/glyph/violin.ts
+++ b/packages/vgrammar-core/src/glyph/violin.ts
@@ -57,17 +57,16 @@ const encodeViolin = (encodeValues: any, datum: any, element: IGlyphElement, con
     violin: {},
     shaft: {},
     box: {},
-    median: {}
+    median: {} as any
   };
 
-  const x = encodeValues.x ?? element.getGraphicAttribute('x', false);
-  const y = encodeValues.y ?? element.getGraphicAttribute('y', false);
-  const width = encodeValues.width ?? element.getGraphicAttribute('width', false);
-  const height = encodeValues.height ?? element.getGraphicAttribute('height', false);
-  const boxWidth = encodeValues.boxWidth ?? element.getGraphicAttribute('boxWidth', false);
-  const boxHeight = encodeValues.boxHeight ?? element.getGraphicAttribute('boxHeight', false);
-  const densitySize =
-    encodeValues.densitySize ?? element.getGraphicAttribute('densitySize', false) ?? defaultDensitySize;
+  const x = encodeValues.x;
+  const y = encodeValues.y;
+  const width = encodeValues.width;
+  const height = encodeValues.height;
+  const boxWidth = encodeValues.boxWidth;
+  const boxHeight = encodeValues.boxHeight;
+  const densitySize = encodeValues.densitySize ?? defaultDensitySize;
 
   const densityScale = element.mark.getScalesByChannel().density;
   const densityField = element.mark.getFieldsByChannel().density;
@@ -82,12 +81,14 @@ const encodeViolin = (encodeValues: any, datum: any, element: IGlyphElement, con
     } else {
       Object.assign(attributes.box, { y: y - height / 2, y1: y + height / 2 });
     }
+    attributes.median.y = y;
   } else {
     if (isValidNumber(boxWidth)) {
       Object.assign(attributes.box, { x: x - boxWidth / 2, x1: x + boxWidth / 2 });
     } else {
       Object.assign(attributes.box, { x: x - width / 2, x1: x + width / 2 });
     }
+    attributes.median.x = x;
   }
   assignRotation(attributes, encodeValues, config, ['shaft', 'box', 'median']);
   return attributes;
diff --git a/packages/vgrammar-core/src/glyph/wave.ts b/packages/vgrammar-core/src/glyph/wave.ts
index 7b3f1b1..542d3b9 100644
--- a/packages/vgrammar-core/src/glyph/wave.ts
+++ b/packages/vgrammar-core/src/glyph/wave.ts
@@ -1,6 +1,6 @@
-import type { IPointLike } from '@visactor/vutils';
+import { isNil, type IPointLike } from '@visactor/vutils';
 import { Factory } from '../core/factory';
-import type { WaveEncoderSpec } from '../types';
+import type { IElement, WaveEncoderSpec } from '../types';
 import { registerAreaGraphic, registerGlyphGraphic } from '../graph/mark/graphic';
 import { registerGlyphMark } from '../view/glyph';
 
@@ -10,7 +10,12 @@ export const registerWaveGlyph = () => {
     wave1: 'area',
     wave2: 'area'
   })
-    .registerChannelEncoder('wave', (channel, encodeValue, encodeValues, datum, element) => {
+    .registerFunctionEncoder((encodeValues: WaveEncoderSpec, datum: any, element: IElement, config: any) => {
+      // waves depend on the position and the height as well
+      const encodeValue = encodeValues.wave;
+      if (isNil(encodeValue)) {
+        return {};
+      }
       const originPoints: IPointLike[] = new Array(21).fill(0).map((v, index) => {
         const waveHeight = index % 2 === 0 ? 20 : 0;
         return { x: -500 + 50 * index, y: encodeValues.y + waveHeight, y1: encodeValues.y + encodeValues.height };
-- 
2.43.0


From 5a9490607e74f0d73fe3c51aeaa36ef78de1bb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:26 +0000
Subject: [PATCH 108/151] fix: parts of glyphs kept the attributes of channels
 of cleared states

---
 .../vgrammar-core/src/graph/glyph-element.ts  | 52 ++++++++++++++++++-
 1 file changed, 51 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/graph/glyph-element.ts b/packages/vgrammar-core/src/graph/glyph-element.ts
index 1e5acca..a306003 100644
--- a/packages/vgrammar-core/src/graph/glyph-element.ts
+++ b/packages/vgrammar-core/src/graph/glyph-element.ts
@@ -204,6 +204,49 @@ export class GlyphElement extends Element implements IGlyphElement {
     return customEncodeValues;
   }
 
+  /**
+   * Attributes of the parts which belong to withdrawn channels (when states are cleared) return to those without the channels.
+   */
+  private encodeWithdrawn(nextAttrs: any) {
+    const prevAttrs = this.graphicItem.attribute;
+    const withdrawn = Object.keys(nextAttrs).filter(channel => isNil(nextAttrs[channel]) && !isNil(prevAttrs[channel]));
+    if (!withdrawn.length) {
+      return null;
+    }
+    const channelEncoder = this.glyphMeta.getChannelEncoder() ?? {};
+    const allAttrs = Object.assign({}, prevAttrs, nextAttrs);
+    const remained = this.encodeCustom(allAttrs);
+    const defaults = this.encodeDefault();
+    const result: { [markName: string]: any } = {};
+    const reset = (markName: string, key: string) => {
+      result[markName] = result[markName] ?? {};
+      result[markName][key] =
+        remained?.[markName]?.[key] ?? (isNil(allAttrs[key]) ? defaults[markName]?.[key] : undefined);
+    };
+    withdrawn.forEach(channel => {
+      if (channelEncoder[channel]) {
+        const encodeResult = channelEncoder[channel].call(
+          null,
+          channel,
+          prevAttrs[channel],
+          prevAttrs,
+          this.getDatum(),
+          this,
+          this.mark.getGlyphConfig()
+        );
+        Object.keys(encodeResult ?? {}).forEach(markName => {
+          Object.keys(encodeResult[markName] ?? {}).forEach(key => reset(markName, key));
+        });
+      }
+      Object.keys(defaults).forEach(markName => {
+        if (has(defaults[markName], channel)) {
+          reset(markName, channel);
+        }
+      });
+    });
+    return result;
+  }
+
   private encodeDefault() {
     const defaultEncodeValues: { [markName: string]: any } = {};
     // apply default encode
@@ -230,12 +273,13 @@ export class GlyphElement extends Element implements IGlyphElement {
       const defaultEncodeValues = first ? this.encodeDefault() : null;
       // apply custom encode
       const customEncodeValues = this.encodeCustom(attributes);
+      const withdrawnValues = first ? null : this.encodeWithdrawn(attributes);
 
       Object.keys(glyphMarks).forEach(markName => {
         const markType = glyphMarks[markName];
         const graphicItem = this.glyphGraphicItems[markName];
         const customAttributes = customEncodeValues?.[markName];
-        const additionalAttributes = Object.assign({}, customAttributes);
+        const additionalAttributes = Object.assign({}, withdrawnValues?.[markName], customAttributes);
         if (first) {
           // apply default attributes when visual channel is not set
           const defaultAttributes = defaultEncodeValues?.[markName];
@@ -251,6 +295,12 @@ export class GlyphElement extends Element implements IGlyphElement {
         const graphicAttributes = this.transformElementItems(glyphItems, markType);
 
         this.applyGlyphGraphicAttributes(graphicAttributes, markName, graphicItem);
+        Object.keys(withdrawnValues?.[markName] ?? {}).forEach(key => {
+          // inherit from glyph again
+          if (isNil(additionalAttributes[key])) {
+            delete graphicItem.attribute[key];
+          }
+        });
 
         if (markType === GrammarMarkType.shape) {
           // FIXME: shape需要拿到原始数据进行编码，暂时把数据绑定到graphicItem上，看后续graphicItem是否需要支持数据绑定
-- 
2.43.0


From db7d27be712a33964d0320e43a61d68cc8c071b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:22 +0000
Subject: [PATCH 109/151] fix: projections kept options, fits and point radii
 which were removed, and lost signals when reset

---
 .../vgrammar-projection/src/projection.ts     | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/packages/vgrammar-projection/src/projection.ts b/packages/vgrammar-projection/src/projection.ts
index d54b9e4..f9fc660 100644
--- a/packages/vgrammar-projection/src/projection.ts
+++ b/packages/vgrammar-projection/src/projection.ts
@@ -150,37 +150,38 @@ export class Projection extends GrammarBase implements IProjection {
       };
     } else {
       Object.assign(this.spec, config);
-      this.attach(parseProjection(this.spec, this.view));
     }
+    this.attach(parseProjection(this.spec, this.view));
     this.commit();
     return this;
   }
 
   evaluate(upstream: any, parameters: any) {
-    if (!this.projection || this.projection.type !== this.spec.type) {
-      this.projection = create(this.spec.type);
-      this.projection.type = this.spec.type;
-    }
+    // always start from the defaults, options might have been removed
+    const proj = create(this.spec.type);
+    proj.type = this.spec.type;
+
     projectionProperties.forEach(prop => {
       if (!isNil(this.spec[prop])) {
-        set(this.projection, prop, invokeFunctionType(this.spec[prop], parameters, projection));
+        set(proj, prop, invokeFunctionType(this.spec[prop], parameters, proj));
       }
     });
 
     if (!isNil(this.spec.pointRadius)) {
-      this.projection.path.pointRadius(invokeFunctionType(this.spec.pointRadius, parameters, projection));
+      proj.path.pointRadius(invokeFunctionType(this.spec.pointRadius, parameters, proj));
     }
     if (!isNil(this.spec.fit) && (!isNil(this.spec.extent) || !isNil(this.spec.size))) {
-      const fit = invokeFunctionType(this.spec.fit, parameters, projection);
+      const fit = invokeFunctionType(this.spec.fit, parameters, proj);
       const data = collectGeoJSON(fit);
 
       if (this.spec.extent) {
-        this.projection.fitExtent(invokeFunctionType(this.spec.extent, parameters, projection), data);
+        proj.fitExtent(invokeFunctionType(this.spec.extent, parameters, proj), data);
       } else if (this.spec.size) {
-        this.projection.fitSize(invokeFunctionType(this.spec.size, parameters, projection), data);
+        proj.fitSize(invokeFunctionType(this.spec.size, parameters, proj), data);
       }
     }
 
+    this.projection = proj;
     return this.projection;
   }
 
-- 
2.43.0


From 9a6dcd98432ab2bd02dc8f263d1a523171f1a23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 110/151] fix: word clouds of several frames lost words, tried
 words without end or differed from those of a single frame

---
 packages/vgrammar-wordcloud/src/base.ts       | 34 +++++++++++++------
 .../vgrammar-wordcloud/src/cloud-layout.ts    | 28 ++++++++++-----
 .../vgrammar-wordcloud/src/fast-layout.ts     | 33 +++++++-----------
 .../vgrammar-wordcloud/src/grid-layout.ts     |  8 -----
 4 files changed, 56 insertions(+), 47 deletions(-)

diff --git a/packages/vgrammar-wordcloud/src/base.ts b/packages/vgrammar-wordcloud/src/base.ts
index cebb289..201b161 100644
--- a/packages/vgrammar-wordcloud/src/base.ts
+++ b/packages/vgrammar-wordcloud/src/base.ts
@@ -53,6 +53,8 @@ export abstract class BaseLayout<T extends IBaseLayoutOptions> implements IProgr
   isTryRepeatFill?: boolean;
 
   failCount?: number;
+  /** how often the current word has been tried, over all the frames */
+  currentTryCount?: number;
 
   constructor(options: Partial<T>) {
     this.options = merge({}, BaseLayout.defaultOptions, options);
@@ -146,27 +148,24 @@ export abstract class BaseLayout<T extends IBaseLayoutOptions> implements IProgr
       this.escapeTime = Date.now();
     }
 
-    if (this.data && this.progressiveIndex < this.data.length) {
+    if (this.unfinished()) {
       this.progressiveResult = [];
       let i = this.progressiveIndex;
 
-      let curWordTryCount = 0;
       const maxSingleWordTryCount = this.options.maxSingleWordTryCount;
-      const maxFailCount = Math.min(this.options.maxFailCount, this.originalData.length);
+      const maxFailCount = this.getMaxFailCount();
 
       while (i < this.data.length && this.failCount < maxFailCount) {
         const drawn = this.layoutWord(i);
-        curWordTryCount++;
+        this.currentTryCount++;
 
-        if (drawn || curWordTryCount > maxSingleWordTryCount) {
+        if (drawn || this.currentTryCount > maxSingleWordTryCount) {
           i++;
-          curWordTryCount = 0;
+          this.currentTryCount = 0;
           this.failCount = drawn ? 0 : this.failCount + 1;
         }
         this.progressiveIndex = i;
-        if (this.exceedTime()) {
-          break;
-        } else if (
+        if (
           i === this.data.length &&
           this.failCount < maxFailCount &&
           this.options.repeatFill &&
@@ -183,6 +182,9 @@ export abstract class BaseLayout<T extends IBaseLayoutOptions> implements IProgr
           ];
           this.isTryRepeatFill = true;
         }
+        if (this.exceedTime()) {
+          break;
+        }
       }
 
       return this.progressiveResult;
@@ -191,6 +193,10 @@ export abstract class BaseLayout<T extends IBaseLayoutOptions> implements IProgr
     return this.result;
   }
 
+  protected getMaxFailCount() {
+    return Math.min(this.options.maxFailCount, this.originalData?.length ?? Infinity);
+  }
+
   abstract layoutWord(i: number): boolean;
   abstract layout(
     data: any[],
@@ -199,6 +205,7 @@ export abstract class BaseLayout<T extends IBaseLayoutOptions> implements IProgr
 
   initProgressive() {
     this.failCount = 0;
+    this.currentTryCount = 0;
     this.progressiveIndex = 0;
     if (this.options.progressiveStep > 0) {
       this.currentStepIndex = -1;
@@ -218,7 +225,14 @@ export abstract class BaseLayout<T extends IBaseLayoutOptions> implements IProgr
   }
 
   unfinished() {
-    return this.data && this.data.length && !isNil(this.progressiveIndex) && this.progressiveIndex < this.data.length;
+    return !!(
+      this.data &&
+      this.data.length &&
+      !isNil(this.progressiveIndex) &&
+      this.progressiveIndex < this.data.length &&
+      // no more words are tried after too many failures
+      this.failCount < this.getMaxFailCount()
+    );
   }
 
   release() {
diff --git a/packages/vgrammar-wordcloud/src/cloud-layout.ts b/packages/vgrammar-wordcloud/src/cloud-layout.ts
index 1ee78df..9b6b296 100644
--- a/packages/vgrammar-wordcloud/src/cloud-layout.ts
+++ b/packages/vgrammar-wordcloud/src/cloud-layout.ts
@@ -156,6 +156,7 @@ export class CloudLayout extends BaseLayout<ICloudLayoutOptions> implements IPro
     this._placeStatus = 0;
     if (d.hasText && this.place(this._board, d, this._bounds, maxRadius)) {
       this.result.push(d);
+      this.progressiveResult?.push(d);
       if (this._bounds) {
         cloudBounds(this._bounds, d);
       } else {
@@ -220,6 +221,7 @@ export class CloudLayout extends BaseLayout<ICloudLayoutOptions> implements IPro
     // console.time('prepare data');
     // 开始新的layout时清除旧的缓存
     this.clearCache();
+    this._dy = 0;
     this._originSize = [...this._size];
     const contextAndRatio = this.getContext(vglobal.createCanvas({ width: 1, height: 1 }));
     this.contextAndRatio = contextAndRatio;
@@ -264,17 +266,27 @@ export class CloudLayout extends BaseLayout<ICloudLayoutOptions> implements IPro
 
     this.progressiveRun();
 
-    if (!this.options.clip && this.options.enlarge && this._bounds) {
-      this.shrinkBoard(this._bounds);
-    }
+    return this.result;
+  }
 
-    // 处理y方向偏移
-    if (this._bounds && ['cardioid', 'triangle', 'triangle-upright'].includes(this.options.shape as string)) {
-      const currentCenterY = (this._bounds[0].y + this._bounds[1].y) / 2;
-      this._dy = -(currentCenterY - this._originSize[1] / 2);
+  progressiveRun() {
+    const unfinished = this.unfinished();
+    const result = super.progressiveRun();
+
+    // adjust after all the words are placed
+    if (unfinished && !this.unfinished()) {
+      // 处理y方向偏移
+      if (this._bounds && ['cardioid', 'triangle', 'triangle-upright'].includes(this.options.shape as string)) {
+        const currentCenterY = (this._bounds[0].y + this._bounds[1].y) / 2;
+        this._dy = -(currentCenterY - this._size[1] / 2);
+      }
+
+      if (!this.options.clip && this.options.enlarge && this._bounds) {
+        this.shrinkBoard(this._bounds);
+      }
     }
 
-    return this.result;
+    return result;
   }
 
   formatTagItem(words: TagOutputItem[]) {
diff --git a/packages/vgrammar-wordcloud/src/fast-layout.ts b/packages/vgrammar-wordcloud/src/fast-layout.ts
index 141f759..7ed46e8 100644
--- a/packages/vgrammar-wordcloud/src/fast-layout.ts
+++ b/packages/vgrammar-wordcloud/src/fast-layout.ts
@@ -39,7 +39,8 @@ export class FastLayout extends BaseLayout<IFastLayoutOptions> implements IProgr
   private height: number;
 
   static defaultOptions: Partial<IFastLayoutOptions> = {
-    enlarge: false
+    enlarge: false,
+    maxSingleWordTryCount: 0
   };
 
   constructor(options: IFastLayoutOptions) {
@@ -120,6 +121,7 @@ export class FastLayout extends BaseLayout<IFastLayoutOptions> implements IProgr
       (info.left >= 0 && info.left + info.width <= this.width && info.top >= 0 && info.top + info.height <= this.height)
     ) {
       this.result.push(info);
+      this.progressiveResult?.push(info);
 
       return true;
     }
@@ -128,38 +130,27 @@ export class FastLayout extends BaseLayout<IFastLayoutOptions> implements IProgr
   }
 
   layout(data: any[], config: { width: number; height: number }) {
-    if (!data?.length) {
-      return [];
-    }
-
     this.initProgressive();
     this.result = [];
     this.maxRadius = Math.sqrt(config.width * config.width + config.height * config.height) / 2;
     this.center = [config.width / 2, config.height / 2];
     this.width = config.width;
     this.height = config.height;
-    this.data = data.sort((a: any, b: any) => {
+    // 将words按照fontSize排序，结果更美观
+    this.data = (data ?? []).slice().sort((a: any, b: any) => {
       return this.getTextFontSize(b) - this.getTextFontSize(a);
     });
+    this.originalData = this.data;
 
-    // 将words按照fontSize排序，结果更美观
-    // words.sort((a, b) => b.fontSize - a.fontSize);
-
-    let i = 0;
-
-    while (i < data.length) {
-      const drawn = this.layoutWord(i);
-
-      i++;
-      this.progressiveIndex = i;
-
-      if (this.exceedTime()) {
-        break;
-      }
-    }
+    this.progressiveRun();
 
     return this.result;
   }
+
+  protected getMaxFailCount() {
+    // all the words are tried
+    return Infinity;
+  }
 }
 
 // 判断矩形是否重叠
diff --git a/packages/vgrammar-wordcloud/src/grid-layout.ts b/packages/vgrammar-wordcloud/src/grid-layout.ts
index d422467..4629435 100644
--- a/packages/vgrammar-wordcloud/src/grid-layout.ts
+++ b/packages/vgrammar-wordcloud/src/grid-layout.ts
@@ -186,10 +186,6 @@ export class GridLayout extends BaseLayout<IGridLayoutOptions> implements IProgr
     // Get the pixels of the text
     const imageData = fctx.getImageData(0, 0, width, height).data;
 
-    if (this.exceedTime()) {
-      return null;
-    }
-
     // Read the pixels and save the information to the occupied array
     const occupied: [number, number][] = [];
     let gx = cgw;
@@ -326,10 +322,6 @@ export class GridLayout extends BaseLayout<IGridLayoutOptions> implements IProgr
       return false;
     }
 
-    if (this.exceedTime()) {
-      return false;
-    }
-
     // If drawOutOfBound is set to false,
     // skip the loop if we have already know the bounding box of
     // word is larger than the canvas.
-- 
2.43.0


From 85534d0d300a8033a77803adea532d3776cd3179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 111/151] fix: rotated words of grid word clouds overlapped,
 and clipping words without room never ended

---
 .../vgrammar-wordcloud/src/grid-layout.ts     | 22 +++++++++----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/packages/vgrammar-wordcloud/src/grid-layout.ts b/packages/vgrammar-wordcloud/src/grid-layout.ts
index 4629435..f2864f5 100644
--- a/packages/vgrammar-wordcloud/src/grid-layout.ts
+++ b/packages/vgrammar-wordcloud/src/grid-layout.ts
@@ -166,22 +166,19 @@ export class GridLayout extends BaseLayout<IGridLayoutOptions> implements IProgr
 
     // Scale the canvas with |mu|.
     fctx.scale(1, 1);
-    fctx.translate(width / 2, height / 2);
-    fctx.rotate(-angle);
+    // the word is rotated around its anchor, see outputText()
+    fctx.translate(width / 2, height / 2 + fillTextOffsetY + fontSize * 0.35);
+    fctx.rotate(angle);
 
     // Once the width/height is set, ctx info will be reset.
     // Set it again here.
     fctx.font = fontStyle + ' ' + fontWeight + ' ' + fontSize.toString(10) + 'px ' + fontFamily;
 
-    // Fill the text into the fcanvas.
-    // XXX: We cannot because textBaseline = 'top' here because
-    // Firefox and Chrome uses different default line-height for canvas.
-    // Please read https://bugzil.la/737852#c6.
-    // Here, we use textBaseline = 'middle' and draw the text at exactly
-    // 0.5 * fontSize lower.
+    // Fill the text into the fcanvas, in the same way as the result is drawn:
+    // centered around its anchor, on the alphabetic baseline.
     fctx.fillStyle = '#000';
-    fctx.textBaseline = 'middle';
-    fctx.fillText(word, fillTextOffsetX, fillTextOffsetY);
+    fctx.textBaseline = 'alphabetic';
+    fctx.fillText(word, fillTextOffsetX, 0);
 
     // Get the pixels of the text
     const imageData = fctx.getImageData(0, 0, width, height).data;
@@ -385,7 +382,8 @@ export class GridLayout extends BaseLayout<IGridLayoutOptions> implements IProgr
       }
     }
     if (this.options.clip) {
-      return this.layoutWord(index, shrinkRatio * 0.75);
+      // the shortest form of a word has a single character
+      return info.text.length > 1 && this.layoutWord(index, shrinkRatio * 0.75);
     } else if (this.options.shrink && info.fontSize > this.options.minFontSize) {
       return this.layoutWord(index, shrinkRatio * 0.75);
     }
@@ -406,7 +404,7 @@ export class GridLayout extends BaseLayout<IGridLayoutOptions> implements IProgr
       width: info.fillTextWidth,
       height: info.fillTextHeight,
       x: (gx + info.gw / 2) * this.gridSize,
-      y: (gy + info.gh / 2) * this.gridSize + info.fillTextOffsetY + info.fontSize * 0.5,
+      y: (gy + info.gh / 2) * this.gridSize + info.fillTextOffsetY + info.fontSize * 0.35,
       fontSize: info.fontSize
     };
 
-- 
2.43.0


From 1cf1157c7bec152f5d7c8a4de8226f9af4286570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 112/151] fix: words of fast word clouds were drawn outside of
 their boxes

---
 packages/vgrammar-wordcloud/src/fast-layout.ts | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/packages/vgrammar-wordcloud/src/fast-layout.ts b/packages/vgrammar-wordcloud/src/fast-layout.ts
index 7ed46e8..033f83e 100644
--- a/packages/vgrammar-wordcloud/src/fast-layout.ts
+++ b/packages/vgrammar-wordcloud/src/fast-layout.ts
@@ -72,12 +72,13 @@ export class FastLayout extends BaseLayout<IFastLayoutOptions> implements IProgr
       y: this.center[1]
     };
 
-    const bounds = getTextBounds(info as ITextAttribute);
+    // the anchor of a word is the center of its baseline
+    const bounds = getTextBounds({ ...info, textAlign: 'center', textBaseline: 'alphabetic' } as ITextAttribute);
 
     info.width = bounds.width();
     info.height = bounds.height();
-    info.top = this.center[1] - info.height + info.height * 0.21;
-    info.left = this.center[0] - info.width / 2;
+    info.top = bounds.y1;
+    info.left = bounds.x1;
 
     return info as TagItem;
   }
@@ -92,6 +93,9 @@ export class FastLayout extends BaseLayout<IFastLayoutOptions> implements IProgr
     let top = info.top;
     const width = info.width;
     const height = info.height;
+    // offset between the anchor and the bounds of the word
+    const offsetX = info.x - left;
+    const offsetY = info.y - top;
     let rx = 1;
     let isFit = this.fit(info);
 
@@ -106,8 +110,8 @@ export class FastLayout extends BaseLayout<IFastLayoutOptions> implements IProgr
 
       info.left = left;
       info.top = top;
-      info.x = left + width / 2;
-      info.y = top + height / 2;
+      info.x = left + offsetX;
+      info.y = top + offsetY;
 
       isFit = this.fit(info);
     }
-- 
2.43.0


From 793d576fd4a9410400dc1255c1c3f727a5fcee0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 113/151] fix: labels of equal sets were placed on their border

---
 packages/vgrammar-venn/src/utils/label.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-venn/src/utils/label.ts b/packages/vgrammar-venn/src/utils/label.ts
index a144d8c..96b7b29 100644
--- a/packages/vgrammar-venn/src/utils/label.ts
+++ b/packages/vgrammar-venn/src/utils/label.ts
@@ -69,7 +69,9 @@ function getOverlappingCircles(circles: Record<VennCircleName, IVennCircle>): Re
 
       if (d + b.radius <= a.radius + 1e-10) {
         ret[circleIds[j]].push(circleIds[i]);
-      } else if (d + a.radius <= b.radius + 1e-10) {
+      }
+      // equal circles overlap each other
+      if (d + a.radius <= b.radius + 1e-10) {
         ret[circleIds[i]].push(circleIds[j]);
       }
     }
-- 
2.43.0


From 84959341c9e343f1c217fc63e9b578bd010f640d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 114/151] fix: venn diagrams without any size were placed
 outside of their view

---
 .../src/utils/solution/scale-solution.ts              | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-venn/src/utils/solution/scale-solution.ts b/packages/vgrammar-venn/src/utils/solution/scale-solution.ts
index c7450b2..c22d49f 100644
--- a/packages/vgrammar-venn/src/utils/solution/scale-solution.ts
+++ b/packages/vgrammar-venn/src/utils/solution/scale-solution.ts
@@ -39,7 +39,16 @@ export function scaleSolution(
   if (xRange.max === xRange.min || yRange.max === yRange.min) {
     // eslint-disable-next-line no-console
     console.log('not scaling solution: zero size detected');
-    return solution;
+    // nothing to be scaled, it's only moved to the center of the available space
+    const zeroSized: Record<VennCircleName, IVennCircle> = {};
+    for (let i = 0; i < circles.length; ++i) {
+      zeroSized[setIds[i]] = {
+        ...circles[i],
+        x: x0 + width / 2 + circles[i].x - (xRange.max + xRange.min) / 2,
+        y: y0 + height / 2 + circles[i].y - (yRange.max + yRange.min) / 2
+      };
+    }
+    return zeroSized;
   }
 
   const xScaling = width / (xRange.max - xRange.min);
-- 
2.43.0


From 0b1b40dfe7055676fcc8d6dd1f91cf9068cdabc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 115/151] fix: overlaps of sets which touch a containing set
 from inside were empty

---
 packages/vgrammar-venn/src/utils/path.ts | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-venn/src/utils/path.ts b/packages/vgrammar-venn/src/utils/path.ts
index ccfb320..a98d4bc 100644
--- a/packages/vgrammar-venn/src/utils/path.ts
+++ b/packages/vgrammar-venn/src/utils/path.ts
@@ -9,7 +9,16 @@ export const getArcsFromCircles = (circles: IVennCircle[]) => {
   if (!circleList.length) {
     return [];
   }
-  intersectionArea(circleList, areaStats);
+  // circles which contain another circle don't matter, and their points of contact may coincide
+  const relevantCircles = circleList.filter(
+    (circle, index) =>
+      !circleList.some((other, otherIndex) => {
+        const margin = circle.radius - other.radius - PointService.distancePP(circle, other);
+        const isEqual = other.radius - circle.radius - PointService.distancePP(circle, other) >= -SMALL;
+        return otherIndex !== index && margin >= -SMALL && (!isEqual || otherIndex < index);
+      })
+  );
+  intersectionArea(relevantCircles, areaStats);
   const arcs = areaStats.arcs.map(
     ({ p1, p2, circle, width }) =>
       ({
-- 
2.43.0


From 27b6cdbc510e8278d2bbe1eee82bc7f34d39f76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 116/151] fix: overlaps with half circles as borders were
 animated with invalid circles

---
 packages/vgrammar-venn/src/utils/path.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-venn/src/utils/path.ts b/packages/vgrammar-venn/src/utils/path.ts
index a98d4bc..559dadc 100644
--- a/packages/vgrammar-venn/src/utils/path.ts
+++ b/packages/vgrammar-venn/src/utils/path.ts
@@ -94,7 +94,7 @@ export const getCirclesFromArcs = (arcs: IVennOverlapArc[]) => {
       const mX = (x1 + x2) / 2;
       const mY = (y1 + y2) / 2;
       // 中垂线的长度
-      const h = (radius ** 2 - (d / 2) ** 2) ** 0.5;
+      const h = Math.max(radius ** 2 - (d / 2) ** 2, 0) ** 0.5;
       // 圆心坐标
       let x = mX + (h * (y2 - y1)) / d;
       let y = mY - (h * (x2 - x1)) / d;
-- 
2.43.0


From ac8835d79604bfdbcb92f0b4938d6e496ed8ee56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 117/151] fix: semantic rules failed when they were drawn

---
 packages/vgrammar-plot/src/rule.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-plot/src/rule.ts b/packages/vgrammar-plot/src/rule.ts
index a86679c..2809700 100644
--- a/packages/vgrammar-plot/src/rule.ts
+++ b/packages/vgrammar-plot/src/rule.ts
@@ -45,7 +45,7 @@ export class Rule extends SemanticMark<PlotRuleEncoderSpec, RuleEncodeChannels>
   ): GenerateBaseEncodeSpec<PlotRuleEncoderSpec> {
     const markEncoder = this.convertSimpleMarkEncode(encode);
 
-    let res: GenerateEncoderSpec<PlotRuleEncoderSpec>;
+    const res: GenerateEncoderSpec<PlotRuleEncoderSpec> = {};
 
     if (isArray(markEncoder.x?.field)) {
       res.x = { field: markEncoder.x.field[0], scale: markEncoder.x.scale };
-- 
2.43.0


From f1cd3877514c93dffcc2fc7c5ae510ef31f0e0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 118/151] fix: semantic images with a single y were placed by
 their x scale

---
 packages/vgrammar-plot/src/image.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-plot/src/image.ts b/packages/vgrammar-plot/src/image.ts
index 315738a..a9241f8 100644
--- a/packages/vgrammar-plot/src/image.ts
+++ b/packages/vgrammar-plot/src/image.ts
@@ -111,7 +111,7 @@ export class ImageSemanticMark extends SemanticMark<PlotImageEncoderSpec, ImageE
       const yAccessor = getFieldAccessor(markEncoder.y.field);
 
       res.y = (datum: any, el: IElement, params: any) => {
-        const scale = params[scaleXId];
+        const scale = params[scaleYId];
 
         return scale.scale(yAccessor(datum)) - height / 2;
       };
-- 
2.43.0


From 73ed76ee93ca86bbef9eba174a7d3a41d5d38084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 119/151] fix: semantic paths failed when they were drawn, and
 had no scale of their colors

---
 packages/vgrammar-plot/src/path.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-plot/src/path.ts b/packages/vgrammar-plot/src/path.ts
index e7a50a1..b6b00fb 100644
--- a/packages/vgrammar-plot/src/path.ts
+++ b/packages/vgrammar-plot/src/path.ts
@@ -25,7 +25,7 @@ export class PathSemanticMark extends SemanticMark<BasicEncoderSpecMap['path'],
     channel: PathEncodeChannels,
     option: ValueOf<WithDefaultEncode<BasicEncoderSpecMap['path'], PathEncodeChannels>, PathEncodeChannels>
   ): ScaleSpec | Nil {
-    return null;
+    return this.parseScaleOfCommonEncode(channel, option);
   }
 
   convertMarkEncode(
@@ -39,6 +39,6 @@ export class PathSemanticMark extends SemanticMark<BasicEncoderSpecMap['path'],
     }
     res.fill = markEncoder.color ?? this.spec.style?.fill ?? this.getPalette()?.[0];
 
-    return null;
+    return res;
   }
 }
-- 
2.43.0


From 12e224bc6ed8ecd84f9a5523413cadcc224b2f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 120/151] fix: changed coordinates of marks were replaced by
 the former ones when marks were reused

---
 packages/vgrammar-core/src/view/mark.ts | 1 -
 1 file changed, 1 deletion(-)

diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index fe99d0d..856f5b3 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -187,7 +187,6 @@ export class Mark extends GrammarBase implements IMark {
     }
     const mark = grammar as Mark;
     this.markType = mark.markType;
-    this.coord = mark.coord;
 
     this.elementMap = mark.elementMap;
     this.elements = mark.elements;
-- 
2.43.0


From 71208f6f35cc66c4bd30caa5d18542af9e29fafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 121/151] fix: plots of several marks with scales which have no
 domain failed

---
 packages/vgrammar-plot/src/plot.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/vgrammar-plot/src/plot.ts b/packages/vgrammar-plot/src/plot.ts
index 5064369..570f192 100644
--- a/packages/vgrammar-plot/src/plot.ts
+++ b/packages/vgrammar-plot/src/plot.ts
@@ -57,8 +57,8 @@ export class Plot implements IPlot {
 
         if (prevIndex >= 0) {
           const prevScale = res[prevIndex];
-          if ((scale.domain as ScaleData).data && (scale.domain as ScaleData).field) {
-            if ((prevScale.domain as ScaleData).data && (prevScale.domain as ScaleData).field) {
+          if ((scale.domain as ScaleData)?.data && (scale.domain as ScaleData).field) {
+            if ((prevScale.domain as ScaleData)?.data && (prevScale.domain as ScaleData).field) {
               if (
                 (scale.domain as ScaleData).data === (prevScale.domain as ScaleData).data &&
                 (scale.domain as ScaleData).field !== (prevScale.domain as ScaleData).field
@@ -78,7 +78,7 @@ export class Plot implements IPlot {
               if (!isNil((scale.domain as ScaleData).sort)) {
                 (prevScale.domain as ScaleData).sort = (scale.domain as ScaleData).sort;
               }
-            } else if ((prevScale.domain as MultiScaleData).datas) {
+            } else if ((prevScale.domain as MultiScaleData)?.datas) {
               const prevData = (prevScale.domain as MultiScaleData).datas.find(
                 entry => entry.data === (scale.domain as ScaleData).data
               );
-- 
2.43.0


From e6fdfd65f3fbd0450d0336eb7198ce3d735869bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 122/151] fix: updating the spec of a plot kept the marks and
 the coordinate of the former spec

---
 packages/vgrammar-plot/src/plot.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/vgrammar-plot/src/plot.ts b/packages/vgrammar-plot/src/plot.ts
index 570f192..3f76e08 100644
--- a/packages/vgrammar-plot/src/plot.ts
+++ b/packages/vgrammar-plot/src/plot.ts
@@ -207,6 +207,8 @@ export class Plot implements IPlot {
   }
 
   updateSpec(spec: PlotSpec) {
+    this._semanticMarks = [];
+    this._coordinate = null;
     this.parseSpec(spec, true);
     return this;
   }
-- 
2.43.0


From 24b80172d154af78d140493bb8a545ebea8f7c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:28 +0000
Subject: [PATCH 123/151] fix: brushes treated rectangles which are given by
 their corners as points

---
 .../src/interactions/brush-base.ts            | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/brush-base.ts b/packages/vgrammar-core/src/interactions/brush-base.ts
index f8ccdcd..78469c2 100644
--- a/packages/vgrammar-core/src/interactions/brush-base.ts
+++ b/packages/vgrammar-core/src/interactions/brush-base.ts
@@ -31,6 +31,13 @@ export abstract class BrushBase<T extends BrushOptions> extends BaseInteraction<
     ];
   }
 
+  private getSizeOfRect(graphicItem: IGraphic) {
+    // rectangles are given by their size or by two of their corners
+    const { x = 0, y = 0, x1 = x, y1 = y, width = x1 - x, height = y1 - y } = graphicItem.attribute as IRectGraphicAttribute;
+
+    return { width, height };
+  }
+
   protected isPolygonBrushContainGraphicItem(
     brushMask: IPolygon,
     graphicItem: IGraphic,
@@ -65,7 +72,7 @@ export abstract class BrushBase<T extends BrushOptions> extends BaseInteraction<
     if (graphicItem.type === 'symbol' || graphicItem.type === 'circle') {
       return globalAABBBoundsOffset.contains(x, y) && polygonContainPoint(pointsCoord, x, y);
     } else if (graphicItem.type === 'rect') {
-      const { width = 0, height = 0 } = graphicItem?.attribute as IRectGraphicAttribute;
+      const { width, height } = this.getSizeOfRect(graphicItem);
       const pointsRect = [
         {
           x: x,
@@ -113,8 +120,17 @@ export abstract class BrushBase<T extends BrushOptions> extends BaseInteraction<
     if (graphicItem.type === 'symbol' || graphicItem.type === 'circle') {
       return globalAABBBoundsOffset.contains(x, y);
     } else if (graphicItem.type === 'rect') {
-      const { width = 0, height = 0 } = graphicItem.attribute as IRectGraphicAttribute;
-      return isRectIntersect(globalAABBBoundsOffset, { x1: x, y1: y, x2: x + width, y2: y + height }, false);
+      const { width, height } = this.getSizeOfRect(graphicItem);
+      return isRectIntersect(
+        globalAABBBoundsOffset,
+        {
+          x1: Math.min(x, x + width),
+          y1: Math.min(y, y + height),
+          x2: Math.max(x, x + width),
+          y2: Math.max(y, y + height)
+        },
+        false
+      );
     }
     return brushMask.globalAABBBounds.intersects(graphicItem.globalAABBBounds);
   }
-- 
2.43.0


From 26326e72c7932b42b042795848d3039bb9bebd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:33 +0000
Subject: [PATCH 124/151] fix: brushes of polygons did not cover rectangles in
 which they were contained

---
 packages/vgrammar-core/src/interactions/brush-base.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/interactions/brush-base.ts b/packages/vgrammar-core/src/interactions/brush-base.ts
index 78469c2..4d04fa5 100644
--- a/packages/vgrammar-core/src/interactions/brush-base.ts
+++ b/packages/vgrammar-core/src/interactions/brush-base.ts
@@ -91,7 +91,11 @@ export abstract class BrushBase<T extends BrushOptions> extends BaseInteraction<
           y: y + height
         }
       ];
-      return polygonIntersectPolygon(pointsCoord, pointsRect);
+      // the polygon is contained in the rectangle when no corner and no edge of the rectangle meets it
+      return (
+        polygonIntersectPolygon(pointsCoord, pointsRect) ||
+        pointsCoord.some((p: IPointLike) => polygonContainPoint(pointsRect, p.x, p.y))
+      );
     }
     return brushMask.globalAABBBounds.intersects(graphicItem.globalAABBBounds);
   }
-- 
2.43.0


From 70abd6fb808a714fb319fae961e43a60712e42d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 125/151] fix: elements stayed active after the brush was
 cleared

---
 packages/vgrammar-core/src/interactions/brush-active.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/interactions/brush-active.ts b/packages/vgrammar-core/src/interactions/brush-active.ts
index f385b77..936d15d 100644
--- a/packages/vgrammar-core/src/interactions/brush-active.ts
+++ b/packages/vgrammar-core/src/interactions/brush-active.ts
@@ -3,6 +3,7 @@ import { InteractionStateEnum } from '../graph/enums';
 import type { BrushActiveOptions, IElement, IGlyphElement, IView } from '../types';
 import { BrushBase } from './brush-base';
 import { type IBounds } from '@visactor/vutils';
+import { IOperateType } from '@visactor/vrender-components';
 
 export class BrushActive extends BrushBase<BrushActiveOptions> {
   static type: string = 'brush-active';
@@ -31,7 +32,9 @@ export class BrushActive extends BrushBase<BrushActiveOptions> {
 
     this._marks.forEach(mark => {
       mark.elements.forEach(el => {
-        const isActive = this.isBrushContainGraphicItem(event.detail.operateMask, el.getGraphicItem());
+        const isActive =
+          event.type !== IOperateType.brushClear &&
+          this.isBrushContainGraphicItem(event.detail.operateMask, el.getGraphicItem());
 
         if (isActive) {
           elements.push(el);
-- 
2.43.0


From 0a60eac865f027f78c14d1e5ffa9e1a8e741996e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 126/151] fix: the depth of 3d rects could not be given by z1

---
 packages/vgrammar-core/src/graph/attributes/transform.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/graph/attributes/transform.ts b/packages/vgrammar-core/src/graph/attributes/transform.ts
index 356f3b1..f90a61c 100644
--- a/packages/vgrammar-core/src/graph/attributes/transform.ts
+++ b/packages/vgrammar-core/src/graph/attributes/transform.ts
@@ -35,7 +35,7 @@ function storeOriginAttributes(
 export const transformsByType: Record<string, AttributeTransform[]> = {
   rect3d: [
     {
-      channels: ['x', 'y', 'z', 'x1', 'y1', 'width', 'height', 'length'],
+      channels: ['x', 'y', 'z', 'x1', 'y1', 'z1', 'width', 'height', 'length'],
       transform: (graphicAttributes: any, nextAttrs: any, storedAttrs: any) => {
         // width
         if (isValidNumber(nextAttrs.width) || (!isValidNumber(nextAttrs.x1) && isValidNumber(storedAttrs.width))) {
-- 
2.43.0


From 706caca972f1e10a7c6c4dca80d0ac000c83aa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:14 +0000
Subject: [PATCH 127/151] fix: texts stayed hidden when they replaced html or
 react content

---
 .../vgrammar-core/src/graph/attributes/transform.ts  | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/packages/vgrammar-core/src/graph/attributes/transform.ts b/packages/vgrammar-core/src/graph/attributes/transform.ts
index f90a61c..2452055 100644
--- a/packages/vgrammar-core/src/graph/attributes/transform.ts
+++ b/packages/vgrammar-core/src/graph/attributes/transform.ts
@@ -92,15 +92,27 @@ export const transformsByType: Record<string, AttributeTransform[]> = {
           graphicAttributes.maxLineWidth = maxWidth === Infinity ? storedAttrs.maxLineWidth : maxWidth;
         }
 
+        const isDomText = isTextConfig && (storedAttrs.text.type === 'html' || storedAttrs.text.type === 'react');
+        if (isDomText) {
+          storedAttrs.isDomText = true;
+        } else if (storedAttrs.isDomText) {
+          storedAttrs.isDomText = false;
+          graphicAttributes.html = null;
+          graphicAttributes.react = null;
+          graphicAttributes.renderable = nextAttrs.renderable ?? true;
+        }
+
         if (isTextConfig || storedAttrs.textType) {
           if (storedAttrs.text.type === 'rich' || storedAttrs.textType === 'rich') {
             graphicAttributes.textConfig = text;
           } else if (storedAttrs.text.type === 'html') {
             graphicAttributes.html = text;
+            graphicAttributes.react = null;
             graphicAttributes.text = storedAttrs._originText ?? '';
             graphicAttributes.renderable = false;
           } else if (storedAttrs.text.type === 'react') {
             graphicAttributes.react = text;
+            graphicAttributes.html = null;
             graphicAttributes.text = storedAttrs._originText ?? '';
             graphicAttributes.renderable = false;
           } else {
-- 
2.43.0


From 84f947fc31a9bb3b27da9c382982dfc191ebb903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 128/151] fix: the visible range of scales could not be cleared

---
 packages/vgrammar-core/src/view/scale.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/view/scale.ts b/packages/vgrammar-core/src/view/scale.ts
index 6a28c33..7905ec8 100644
--- a/packages/vgrammar-core/src/view/scale.ts
+++ b/packages/vgrammar-core/src/view/scale.ts
@@ -58,7 +58,7 @@ export class Scale extends GrammarBase implements IScale {
         (this.scale as unknown as IRangeFactor).rangeFactor(this._rangeFactor);
       } else if ((this.scale as unknown as IRangeFactor).rangeFactor()) {
         // clear rangeFactor
-        (this.scale as unknown as IRangeFactor).rangeFactor(null, false, true);
+        (this.scale as unknown as IRangeFactor).rangeFactor([0, 1]);
       }
 
       if (this._fishEyeOptions) {
-- 
2.43.0


From 9b432851b62177bfa1e54fb4554d4676cf399df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:28 +0000
Subject: [PATCH 129/151] fix: view-zoom and view-drag never changed the view,
 their realtime option was dropped

---
 .../vgrammar-core/src/interactions/view-drag.ts   |  6 +++---
 .../vgrammar-core/src/interactions/view-zoom.ts   | 15 +++------------
 2 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/view-drag.ts b/packages/vgrammar-core/src/interactions/view-drag.ts
index 16465cc..d1251ff 100644
--- a/packages/vgrammar-core/src/interactions/view-drag.ts
+++ b/packages/vgrammar-core/src/interactions/view-drag.ts
@@ -47,7 +47,7 @@ export class ViewDrag extends ViewNavigationBase<ViewDragOptions> {
       this._initGrammars();
     }
 
-    this.updateView('start', this.handleDragStart(e, this._state, { reversed: this.options.reversed }), 'drag', e);
+    this.updateView('start', this.handleDragStart(e, this._state, this.options), 'drag', e);
   };
 
   handleUpdateInner = (e: InteractionEvent) => {
@@ -55,7 +55,7 @@ export class ViewDrag extends ViewNavigationBase<ViewDragOptions> {
       return;
     }
 
-    this.updateView('update', this.handleDragUpdate(e, this._state, { reversed: this.options.reversed }), 'drag', e);
+    this.updateView('update', this.handleDragUpdate(e, this._state, this.options), 'drag', e);
   };
 
   handleEnd = (e: InteractionEvent) => {
@@ -63,7 +63,7 @@ export class ViewDrag extends ViewNavigationBase<ViewDragOptions> {
       return;
     }
 
-    this.updateView('end', this.handleDragEnd(e, this._state, { reversed: this.options.reversed }), 'drag', e);
+    this.updateView('end', this.handleDragEnd(e, this._state, this.options), 'drag', e);
 
     this._isStarted = false;
   };
diff --git a/packages/vgrammar-core/src/interactions/view-zoom.ts b/packages/vgrammar-core/src/interactions/view-zoom.ts
index 9a22a19..3a0abf7 100644
--- a/packages/vgrammar-core/src/interactions/view-zoom.ts
+++ b/packages/vgrammar-core/src/interactions/view-zoom.ts
@@ -57,10 +57,7 @@ export class ViewZoom extends ViewNavigationBase<ViewZoomOptions> {
 
     this.updateView(
       'start',
-      (this as unknown as IViewZoomMixin).handleZoomStart(e, this._state, {
-        rate: this.options.rate,
-        focus: this.options.focus
-      }),
+      (this as unknown as IViewZoomMixin).handleZoomStart(e, this._state, this.options),
       'zoom',
       e
     );
@@ -78,10 +75,7 @@ export class ViewZoom extends ViewNavigationBase<ViewZoomOptions> {
 
     this.updateView(
       'end',
-      (this as unknown as IViewZoomMixin).handleZoomEnd(e, this._state, {
-        rate: this.options.rate,
-        focus: this.options.focus
-      }),
+      (this as unknown as IViewZoomMixin).handleZoomEnd(e, this._state, this.options),
       'zoom',
       e
     );
@@ -97,10 +91,7 @@ export class ViewZoom extends ViewNavigationBase<ViewZoomOptions> {
 
     this.updateView(
       'reset',
-      (this as unknown as IViewZoomMixin).handleZoomReset(e, this._state, {
-        rate: this.options.rate,
-        focus: this.options.focus
-      }),
+      (this as unknown as IViewZoomMixin).handleZoomReset(e, this._state, this.options),
       'zoom',
       e
     );
-- 
2.43.0


From 816854150fac86a96577ea65bcd841c79d6dd800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 130/151] fix: zooming after the zoom was reset failed

---
 packages/vgrammar-core/src/interactions/view-zoom-mixin.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts b/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts
index 848a7b3..3d0472a 100644
--- a/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts
+++ b/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts
@@ -111,7 +111,7 @@ export class ViewZoomMixin implements IViewZoomMixin {
         res[dim] = this.updateZoomRange(getRangeOfLinkedComponent(linkedComponent), null, zoomPos, zoomOptions);
       } else if (scale) {
         const innerScale = scale.getScale();
-        const newRange = this.updateZoomRange(rangeFactor, innerScale, zoomPos, zoomOptions);
+        const newRange = this.updateZoomRange(rangeFactor ?? [0, 1], innerScale, zoomPos, zoomOptions);
 
         if (newRange) {
           navState[dim].rangeFactor = newRange;
-- 
2.43.0


From c8ca40dd59b2abf1078edc8bcbdca2e3d40b0371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 131/151] fix: scrolling at the end of the gesture did not
 change the view

---
 packages/vgrammar-core/src/interactions/view-scroll-mixin.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/interactions/view-scroll-mixin.ts b/packages/vgrammar-core/src/interactions/view-scroll-mixin.ts
index 68b48b1..f313176 100644
--- a/packages/vgrammar-core/src/interactions/view-scroll-mixin.ts
+++ b/packages/vgrammar-core/src/interactions/view-scroll-mixin.ts
@@ -79,7 +79,7 @@ export class ViewScrollMixin implements IViewScrollMixin {
   ): ViewNavigationRange {
     // do nothing now
 
-    if (scrollOptions?.realtime === false && (isNil(this._scrollX) || isNil(this._scrollY))) {
+    if (scrollOptions?.realtime === false && (!isNil(this._scrollX) || !isNil(this._scrollY))) {
       const res = handleScrolling({ x: this._scrollX, y: this._scrollY }, navState, scrollOptions);
       this._scrollX = null;
       this._scrollY = null;
-- 
2.43.0


From 935501a3fade09378972187f88c96f7f4d5cb2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 132/151] fix: dragging moved the view by the whole offset with
 every move of the pointer

---
 packages/vgrammar-core/src/interactions/view-drag-mixin.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/vgrammar-core/src/interactions/view-drag-mixin.ts b/packages/vgrammar-core/src/interactions/view-drag-mixin.ts
index 40e2cba..bcab73d 100644
--- a/packages/vgrammar-core/src/interactions/view-drag-mixin.ts
+++ b/packages/vgrammar-core/src/interactions/view-drag-mixin.ts
@@ -58,6 +58,7 @@ export class ViewDragMixin implements IViewDragMixin {
     if (dragOptions?.realtime) {
       const x = e.canvasX - this._dragStart.x;
       const y = e.canvasY - this._dragStart.y;
+      this._dragStart = { x: e.canvasX, y: e.canvasY };
       return handleScrolling({ x, y }, navState, dragOptions);
     }
 
-- 
2.43.0


From 065d746d56cd4af301059d657cbb9e2d21ec3699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 133/151] fix: navigation of a given range started from the
 initial range with every gesture

---
 packages/vgrammar-core/src/interactions/view-utils.ts      | 1 +
 packages/vgrammar-core/src/interactions/view-zoom-mixin.ts | 1 +
 2 files changed, 2 insertions(+)

diff --git a/packages/vgrammar-core/src/interactions/view-utils.ts b/packages/vgrammar-core/src/interactions/view-utils.ts
index 71908e4..0ffeb99 100644
--- a/packages/vgrammar-core/src/interactions/view-utils.ts
+++ b/packages/vgrammar-core/src/interactions/view-utils.ts
@@ -114,6 +114,7 @@ export const handleScrolling = (
       const oldRange = (getCurrentRange ? getCurrentRange() : rangeFactor) || [0, 1];
       const newRange = updateScrollRange(oldRange, [0, 1], scrollPos[dim], scrollOptions);
 
+      navState[dim].rangeFactor = newRange || oldRange;
       res[dim] = newRange || oldRange;
     }
   });
diff --git a/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts b/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts
index 3d0472a..3ed8420 100644
--- a/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts
+++ b/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts
@@ -131,6 +131,7 @@ export class ViewZoomMixin implements IViewZoomMixin {
         const oldRange = (getCurrentRange ? getCurrentRange() : rangeFactor) || [0, 1];
         const newRange = this.updateZoomRange(oldRange, null, zoomPos, zoomOptions);
 
+        navState[dim].rangeFactor = newRange || oldRange;
         res[dim] = newRange || oldRange;
       }
     });
-- 
2.43.0


From bd2d690e245955ebe5cbef4fac3748627e57643b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:48 +0000
Subject: [PATCH 134/151] fix: the zoom of view-roam could not be reset by a
 double click

---
 packages/vgrammar-core/src/interactions/view-roam.ts | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/view-roam.ts b/packages/vgrammar-core/src/interactions/view-roam.ts
index 97b43e8..97d1771 100644
--- a/packages/vgrammar-core/src/interactions/view-roam.ts
+++ b/packages/vgrammar-core/src/interactions/view-roam.ts
@@ -127,7 +127,6 @@ export class ViewRoam extends ViewNavigationBase<ViewRoamOptions> {
     }
 
     this.updateView('end', this.handleZoomEnd(e, this._state, this.options.zoom), 'zoom', e);
-    this._isZoomStarted = false;
   };
 
   handleRoamZoomReset = (e: InteractionEvent) => {
@@ -192,6 +191,6 @@ export class ViewRoam extends ViewNavigationBase<ViewRoamOptions> {
     }
 
     this.updateView('end', this.handleScrollEnd(e, this._state, this.options.scroll), 'scroll', e);
-    this._isScrollStarted = true;
+    this._isScrollStarted = false;
   };
 }
-- 
2.43.0


From da92c08b1ec77abe1555daf93e17a1594775468b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:52 +0000
Subject: [PATCH 135/151] fix: data stayed filtered when the navigation of a
 view was removed

---
 packages/vgrammar-core/src/interactions/view-navigation-base.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/vgrammar-core/src/interactions/view-navigation-base.ts b/packages/vgrammar-core/src/interactions/view-navigation-base.ts
index d9f8c57..1df2a9c 100644
--- a/packages/vgrammar-core/src/interactions/view-navigation-base.ts
+++ b/packages/vgrammar-core/src/interactions/view-navigation-base.ts
@@ -189,6 +189,7 @@ export abstract class ViewNavigationBase<
         if (data && scale) {
           data.detach(scale);
           data.removeDataFilter(dim === 'x' ? this._dataFilterX : this._dataFilterY);
+          data.commit();
         } else if (scale) {
           scale.setRangeFactor(null);
           scale.commit();
-- 
2.43.0


From aee17d8d6397b40c00634710404392f3c9744dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 136/151] fix: zooming a linked scrollbar only moved it

---
 packages/vgrammar-core/src/component/scrollbar.ts             | 4 ++--
 .../vgrammar-core/src/interactions/view-navigation-base.ts    | 3 +--
 packages/vgrammar-core/src/types/component.ts                 | 2 +-
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/packages/vgrammar-core/src/component/scrollbar.ts b/packages/vgrammar-core/src/component/scrollbar.ts
index 3775415..48b59e3 100644
--- a/packages/vgrammar-core/src/component/scrollbar.ts
+++ b/packages/vgrammar-core/src/component/scrollbar.ts
@@ -145,11 +145,11 @@ export class Scrollbar extends ScaleComponent implements IScrollbar {
     return this.setFunctionSpec(position, 'position');
   }
 
-  setScrollStart(start: number) {
+  setScrollStart(start: number, end?: number) {
     const scrollbar = this.getGroupGraphicItem() as unknown as ScrollbarComponent;
     const range = scrollbar?.attribute?.range;
     if (scrollbar && range) {
-      const nextRange: [number, number] = [start, range[1] - range[0] + start];
+      const nextRange: [number, number] = [start, end ?? range[1] - range[0] + start];
       scrollbar.setScrollRange(nextRange);
     }
     return this;
diff --git a/packages/vgrammar-core/src/interactions/view-navigation-base.ts b/packages/vgrammar-core/src/interactions/view-navigation-base.ts
index 1df2a9c..1c8d747 100644
--- a/packages/vgrammar-core/src/interactions/view-navigation-base.ts
+++ b/packages/vgrammar-core/src/interactions/view-navigation-base.ts
@@ -153,8 +153,7 @@ export abstract class ViewNavigationBase<
     if (comp.componentType === ComponentEnum.datazoom) {
       (comp as IDatazoom).setStartEndValue(newRange[0], newRange[1]);
     } else {
-      // fix: need to update range scrollbar
-      (comp as IScrollbar).setScrollStart(newRange[0]);
+      (comp as IScrollbar).setScrollStart(newRange[0], newRange[1]);
     }
   }
 
diff --git a/packages/vgrammar-core/src/types/component.ts b/packages/vgrammar-core/src/types/component.ts
index 1dd4825..188a64c 100644
--- a/packages/vgrammar-core/src/types/component.ts
+++ b/packages/vgrammar-core/src/types/component.ts
@@ -221,7 +221,7 @@ export interface IScrollbar extends IScaleComponent {
   position: (position: MarkFunctionType<OrientType> | Nil) => this;
 
   // immediate functions
-  setScrollStart: (start: number) => this;
+  setScrollStart: (start: number, end?: number) => this;
   getScrollRange: () => [number, number] | Nil;
 }
 
-- 
2.43.0


From 21bbe38d284dca0a8275539f5571076d62ff924e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 137/151] fix: scrolling and dragging after the zoom was reset
 failed

---
 packages/vgrammar-core/src/interactions/view-utils.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/interactions/view-utils.ts b/packages/vgrammar-core/src/interactions/view-utils.ts
index 0ffeb99..c4fae91 100644
--- a/packages/vgrammar-core/src/interactions/view-utils.ts
+++ b/packages/vgrammar-core/src/interactions/view-utils.ts
@@ -93,7 +93,7 @@ export const handleScrolling = (
       );
     } else if (scale) {
       const innerScale = scale.getScale();
-      const oldRange = scale.getRangeFactor() || rangeFactor;
+      const oldRange = scale.getRangeFactor() || rangeFactor || [0, 1];
       const newRange = updateScrollRange(oldRange, innerScale.range(), scrollPos[dim], scrollOptions);
 
       if (newRange) {
-- 
2.43.0


From 8e587f07ac91639d871fac6a3d2daaf9494153c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 138/151] fix: components kept the graphic of the former scale
 when their scale was changed

---
 packages/vgrammar-core/src/component/axis.ts   | 16 ++++++++++------
 packages/vgrammar-core/src/component/grid.ts   | 18 ++++++++++--------
 packages/vgrammar-core/src/component/legend.ts | 16 ++++++++++------
 3 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/packages/vgrammar-core/src/component/axis.ts b/packages/vgrammar-core/src/component/axis.ts
index 4143ddc..8e42986 100644
--- a/packages/vgrammar-core/src/component/axis.ts
+++ b/packages/vgrammar-core/src/component/axis.ts
@@ -146,12 +146,6 @@ export class Axis extends ScaleComponent implements IAxis {
     return this;
   }
 
-  scale(scale?: IScale | string | Nil) {
-    super.scale(scale);
-    this._axisComponentType = null;
-    return this;
-  }
-
   axisType(axisType: AxisType | Nil) {
     this.spec.axisType = axisType;
     this._axisComponentType = null;
@@ -192,6 +186,16 @@ export class Axis extends ScaleComponent implements IAxis {
     return this._axisComponentType;
   }
 
+  protected evaluateJoin(data: any[]) {
+    const lastType = this._axisComponentType;
+    this._axisComponentType = null;
+    // another type of component needs another graphic
+    if (lastType && this._getAxisComponentType() !== lastType) {
+      this._prepareRejoin();
+    }
+    return super.evaluateJoin(data);
+  }
+
   protected _updateComponentEncoders() {
     const scaleGrammar = isString(this.spec.scale) ? this.view.getScaleById(this.spec.scale) : this.spec.scale;
     const encoders = Object.assign({ update: {} }, this.spec.encode);
diff --git a/packages/vgrammar-core/src/component/grid.ts b/packages/vgrammar-core/src/component/grid.ts
index f35cf9a..6848207 100644
--- a/packages/vgrammar-core/src/component/grid.ts
+++ b/packages/vgrammar-core/src/component/grid.ts
@@ -89,12 +89,6 @@ export class Grid extends ScaleComponent implements IGrid {
     return this;
   }
 
-  scale(scale?: IScale | string | Nil) {
-    super.scale(scale);
-    this._gridComponentType = null;
-    return this;
-  }
-
   gridType(gridType: AxisType | Nil) {
     this.spec.gridType = gridType;
     this._gridComponentType = null;
@@ -124,8 +118,6 @@ export class Grid extends ScaleComponent implements IGrid {
     this.attach(nextAxis);
     this._targetAxis = nextAxis;
 
-    // clear grid type when target is updated
-    this._gridComponentType = null;
     this._updateComponentEncoders();
 
     this.commit();
@@ -160,6 +152,16 @@ export class Grid extends ScaleComponent implements IGrid {
     return super.addGraphicItem(initialAttributes, groupKey, graphicItem);
   }
 
+  protected evaluateJoin(data: any[]) {
+    const lastType = this._gridComponentType;
+    this._gridComponentType = null;
+    // another type of component needs another graphic
+    if (lastType && this._getGridComponentType() !== lastType) {
+      this._prepareRejoin();
+    }
+    return super.evaluateJoin(data);
+  }
+
   protected _updateComponentEncoders() {
     const encoders = Object.assign({ update: {} }, this.spec.encode);
     const componentEncoders: StateEncodeSpec = Object.keys(encoders).reduce((res, state) => {
diff --git a/packages/vgrammar-core/src/component/legend.ts b/packages/vgrammar-core/src/component/legend.ts
index bba1122..b0b71e2 100644
--- a/packages/vgrammar-core/src/component/legend.ts
+++ b/packages/vgrammar-core/src/component/legend.ts
@@ -113,12 +113,6 @@ export class Legend extends ScaleComponent implements ILegend {
     return this;
   }
 
-  scale(scale?: IScale | string | Nil) {
-    super.scale(scale);
-    this._legendComponentType = null;
-    return this;
-  }
-
   shapeScale(shapeScale: LegendSpec['shapeScale']) {
     if (this.spec.shapeScale) {
       const lastScaleGrammar = isString(this.spec.shapeScale)
@@ -163,6 +157,16 @@ export class Legend extends ScaleComponent implements ILegend {
     return super.addGraphicItem(attrs, groupKey, graphicItem);
   }
 
+  protected evaluateJoin(data: any[]) {
+    const lastType = this._legendComponentType;
+    this._legendComponentType = null;
+    // another type of component needs another graphic
+    if (lastType && this._getLegendComponentType() !== lastType) {
+      this._prepareRejoin();
+    }
+    return super.evaluateJoin(data);
+  }
+
   protected _updateComponentEncoders() {
     const scaleGrammar = isString(this.spec.scale) ? this.view.getScaleById(this.spec.scale) : this.spec.scale;
     const shapeScaleGrammar = isString(this.spec.shapeScale)
-- 
2.43.0


From de30813b8a58f526b8a1c8e85ffe3f89ba9c279d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 139/151] fix: legends did not show the shapes of a changed
 shape scale, and changed the shapes of their theme

---
 packages/vgrammar-core/src/component/legend.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/component/legend.ts b/packages/vgrammar-core/src/component/legend.ts
index b0b71e2..3f29005 100644
--- a/packages/vgrammar-core/src/component/legend.ts
+++ b/packages/vgrammar-core/src/component/legend.ts
@@ -47,7 +47,7 @@ export const generateDiscreteLegendAttributes = (
           fill: color,
           stroke: color
         }
-      : legendTheme?.items?.[0]?.shape ?? {};
+      : { ...(legendTheme?.items?.[0]?.shape ?? {}) };
 
     if (shapeScale) {
       Object.assign(shape, { symbolType: shapeScale.scale(item) });
@@ -125,6 +125,8 @@ export class Legend extends ScaleComponent implements ILegend {
     this.spec.shapeScale = scaleGrammar;
     this.attach(scaleGrammar);
 
+    this._updateComponentEncoders();
+
     this.commit();
     return this;
   }
-- 
2.43.0


From 41ae4bff3413dc0c22ae9bc738611c82c6bedde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:11 +0000
Subject: [PATCH 140/151] fix: grids ignored signals of their tick count,
 inside and base value

---
 packages/vgrammar-core/src/component/grid.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/component/grid.ts b/packages/vgrammar-core/src/component/grid.ts
index 6848207..09d8988 100644
--- a/packages/vgrammar-core/src/component/grid.ts
+++ b/packages/vgrammar-core/src/component/grid.ts
@@ -1,4 +1,4 @@
-import { isString, merge } from '@visactor/vutils';
+import { isNil, isString, merge } from '@visactor/vutils';
 import type { IGraphic } from '@visactor/vrender-core';
 import type { CircleAxisGridAttributes, ComponentOptions, LineAxisGridAttributes } from '@visactor/vrender-components';
 // eslint-disable-next-line no-duplicate-imports
@@ -86,6 +86,11 @@ export class Grid extends ScaleComponent implements IGrid {
     this.target(spec.target);
     this.gridType(spec.gridType);
     this.gridShape(spec.gridShape);
+    if (!isNil(spec.tickCount)) {
+      this.tickCount(spec.tickCount as SimpleSignalType<number>);
+    }
+    this.inside(spec.inside);
+    this.baseValue(spec.baseValue);
     return this;
   }
 
-- 
2.43.0


From cf9c2d51fdf307af5287665f901b4b7145e87b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:17 +0000
Subject: [PATCH 141/151] fix: changing the preview of a datazoom did not
 change the previewed points

---
 packages/vgrammar-core/src/component/datazoom.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/component/datazoom.ts b/packages/vgrammar-core/src/component/datazoom.ts
index 9a0df45..4a032e0 100644
--- a/packages/vgrammar-core/src/component/datazoom.ts
+++ b/packages/vgrammar-core/src/component/datazoom.ts
@@ -176,8 +176,8 @@ export class Datazoom extends Component implements IDatazoom {
     });
 
     // set preview callbacks
-    const { data, x, y, x1, y1 } = this.spec.preview ?? {};
     datazoom.setPreviewPointsX((datum: any) => {
+      const { data, x } = this.spec.preview ?? {};
       if (x && data) {
         return invokeEncoder({ x }, datum, this.elements[0], this.parameters()).x;
       }
@@ -185,6 +185,7 @@ export class Datazoom extends Component implements IDatazoom {
       return undefined;
     });
     datazoom.setPreviewPointsY((datum: any) => {
+      const { data, y } = this.spec.preview ?? {};
       if (y && data) {
         return invokeEncoder({ y }, datum, this.elements[0], this.parameters()).y;
       }
@@ -192,6 +193,7 @@ export class Datazoom extends Component implements IDatazoom {
       return undefined;
     });
     datazoom.setPreviewPointsX1((datum: any) => {
+      const { data, x1 } = this.spec.preview ?? {};
       if (x1 && data) {
         return invokeEncoder({ x1 }, datum, this.elements[0], this.parameters()).x1;
       }
@@ -199,6 +201,7 @@ export class Datazoom extends Component implements IDatazoom {
       return undefined;
     });
     datazoom.setPreviewPointsY1((datum: any) => {
+      const { data, y1 } = this.spec.preview ?? {};
       if (y1 && data) {
         return invokeEncoder({ y1 }, datum, this.elements[0], this.parameters()).y1;
       }
-- 
2.43.0


From 9ca8a04c69354b1a6ae6f6c229f816748346ced3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:20 +0000
Subject: [PATCH 142/151] fix: the theme of a view could not be disabled

---
 packages/vgrammar-core/src/view/View.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/view/View.ts b/packages/vgrammar-core/src/view/View.ts
index bf55476..87e886d 100644
--- a/packages/vgrammar-core/src/view/View.ts
+++ b/packages/vgrammar-core/src/view/View.ts
@@ -468,7 +468,7 @@ export default class View extends EventEmitter implements IView {
     if (spec.theme) {
       this.theme(spec.theme);
     } else {
-      this.theme(ThemeManager.getDefaultTheme());
+      this.theme(this._options.disableTheme ? null : ThemeManager.getDefaultTheme());
     }
 
     if (spec.width) {
@@ -479,7 +479,7 @@ export default class View extends EventEmitter implements IView {
       this.height(spec.height);
     }
 
-    this.padding(spec.padding ?? this._options.padding ?? this._theme.padding);
+    this.padding(spec.padding ?? this._options.padding ?? this._theme?.padding);
 
     if (!this.width() || !this.height()) {
       const size = this._getContainerSize();
-- 
2.43.0


From e0a002b8230d5bc67922d757ead42b5d74a07002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:24 +0000
Subject: [PATCH 143/151] fix: scales ignored signals of their tick count and
 base, and kept what they depended on when reset

---
 packages/vgrammar-core/src/parse/scale.ts | 7 ++++++-
 packages/vgrammar-core/src/view/scale.ts  | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/parse/scale.ts b/packages/vgrammar-core/src/parse/scale.ts
index 9893581..15c39fc 100644
--- a/packages/vgrammar-core/src/parse/scale.ts
+++ b/packages/vgrammar-core/src/parse/scale.ts
@@ -233,7 +233,9 @@ export function parseScaleConfig(type: GrammarScaleType, config: ScaleConfigureS
   if (isNil(config)) {
     return [];
   }
-  const deps: IGrammarBase[] = parseFunctionType(config.unknown, view);
+  const deps: IGrammarBase[] = parseFunctionType(config.unknown, view).concat(
+    parseFunctionType((config as ContinuousScaleSpec).tickCount, view)
+  );
   switch (type) {
     case 'linear':
     case 'sqrt':
@@ -247,6 +249,9 @@ export function parseScaleConfig(type: GrammarScaleType, config: ScaleConfigureS
     case 'pow':
       return deps.concat(parsePowScale(config as PowScaleSpec, view));
     case 'log':
+      return deps
+        .concat(parseLogScale(config as LogScaleSpec, view))
+        .concat(parseFunctionType((config as LogScaleSpec).base, view));
     case 'time':
     case 'utc':
       return deps.concat(parseLogScale(config as LogScaleSpec, view));
diff --git a/packages/vgrammar-core/src/view/scale.ts b/packages/vgrammar-core/src/view/scale.ts
index 7905ec8..e54358c 100644
--- a/packages/vgrammar-core/src/view/scale.ts
+++ b/packages/vgrammar-core/src/view/scale.ts
@@ -181,7 +181,12 @@ export class Scale extends GrammarBase implements IScale {
       )
     );
     if (isNil(config)) {
-      this.spec = { type: this.spec.type, domain: this.spec.domain, range: this.spec.range } as ScaleSpec;
+      this.spec = {
+        type: this.spec.type,
+        domain: this.spec.domain,
+        range: this.spec.range,
+        dependency: this.spec.dependency
+      } as ScaleSpec;
     } else {
       Object.assign(this.spec, config);
       this.attach(parseScaleConfig(this.spec.type, config, this.view));
-- 
2.43.0


From ecc21e6dd17c514d3656ab258b9e637e69f267f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:09 +0000
Subject: [PATCH 144/151] fix: configurations which were withdrawn from a scale
 stayed in force, and clamped scales with a tick count failed

---
 packages/vgrammar-core/src/parse/scale.ts | 1 +
 packages/vgrammar-core/src/view/scale.ts  | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/parse/scale.ts b/packages/vgrammar-core/src/parse/scale.ts
index 15c39fc..9a3cedd 100644
--- a/packages/vgrammar-core/src/parse/scale.ts
+++ b/packages/vgrammar-core/src/parse/scale.ts
@@ -342,6 +342,7 @@ function configureContinuousScale(spec: Omit<ContinuousScaleSpec, 'type'>, scale
   const tickCount = invokeFunctionType(spec.tickCount, parameters, scale);
   if (tickCount) {
     // tickCount may change the domain of scale, so need to call here
+    scale.rescale();
     scale.tickData(tickCount);
   }
 }
diff --git a/packages/vgrammar-core/src/view/scale.ts b/packages/vgrammar-core/src/view/scale.ts
index e54358c..a5adde6 100644
--- a/packages/vgrammar-core/src/view/scale.ts
+++ b/packages/vgrammar-core/src/view/scale.ts
@@ -24,6 +24,7 @@ export class Scale extends GrammarBase implements IScale {
   protected declare spec: ScaleSpec;
 
   private scale: IBaseScale;
+  private reconfigured?: boolean;
   private _rangeFactor?: [number, number];
   private _fishEyeOptions?: ScaleFishEyeOptions;
 
@@ -48,9 +49,11 @@ export class Scale extends GrammarBase implements IScale {
     if (!this.spec.type) {
       this.spec.type = 'linear';
     }
-    if (!this.scale || this.scale.type !== this.spec.type) {
+    // a new scale keeps nothing of a configuration which is no longer specified
+    if (!this.scale || this.reconfigured || this.scale.type !== this.spec.type) {
       this.scale = createScale(this.spec.type);
     }
+    this.reconfigured = false;
     configureScale(this.spec as ScaleSpec, this.scale, parameters);
 
     if (this.scale && supportRangeFactor(this.scale.type)) {
@@ -180,6 +183,7 @@ export class Scale extends GrammarBase implements IScale {
         this.view
       )
     );
+    this.reconfigured = true;
     if (isNil(config)) {
       this.spec = {
         type: this.spec.type,
-- 
2.43.0


From 36d9462ca2494da7f734df8f4f2a39cba9414dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:02 +0000
Subject: [PATCH 145/151] fix: animations put attributes back to former values
 when encoders were evaluated while they ran

---
 .../src/graph/animation/animator.ts           | 30 ++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/graph/animation/animator.ts b/packages/vgrammar-core/src/graph/animation/animator.ts
index 020381e..7fb7787 100644
--- a/packages/vgrammar-core/src/graph/animation/animator.ts
+++ b/packages/vgrammar-core/src/graph/animation/animator.ts
@@ -43,6 +43,8 @@ export class Animator implements IAnimator {
   private runnings: IGraphicAnimate[] = [];
   // attributes at the end of all time slices
   private endProps: Record<string, any> = {};
+  // attributes of the element without animation when the animation was started
+  private startAttributes: Record<string, any> = {};
   private callbackFunction: (...args: any[]) => any;
 
   constructor(
@@ -121,9 +123,26 @@ export class Animator implements IAnimator {
   private getRunningEndProps(running: IGraphicAnimate) {
     // props of waiting steps only contain the attributes of the step before
     const endProps: Record<string, any> = Object.assign({}, running.getEndProps(), this.endProps);
+    const evaluatedProps = this.getEvaluatedAttributes();
     return Object.keys(endProps).reduce((attributes, key) => {
       if (running.validAttr(key)) {
-        attributes[key] = endProps[key];
+        attributes[key] = key in evaluatedProps ? evaluatedProps[key] : endProps[key];
+      }
+      return attributes;
+    }, {} as Record<string, any>);
+  }
+
+  /**
+   * animated attributes which were changed by encoders since the animation was started
+   */
+  private getEvaluatedAttributes() {
+    const finalAttributes = this.element.getFinalGraphicAttributes();
+    if (!finalAttributes || this.animationOptions.state === DiffState.exit) {
+      return {};
+    }
+    return Object.keys(this.endProps).reduce((attributes, key) => {
+      if (key in finalAttributes && !isEqual(finalAttributes[key], this.startAttributes[key])) {
+        attributes[key] = finalAttributes[key];
       }
       return attributes;
     }, {} as Record<string, any>);
@@ -144,6 +163,7 @@ export class Animator implements IAnimator {
       return;
     }
 
+    this.startAttributes = Object.assign({}, graphicItem.attribute, this.element.getFinalGraphicAttributes());
     const graphicAnimate: IGraphicAnimate = graphicItem.animate();
     this.runnings.push(graphicAnimate);
     // initialDelay is only used at first loop
@@ -167,6 +187,14 @@ export class Animator implements IAnimator {
     }
 
     graphicAnimate.onEnd(() => {
+      const evaluatedAttributes = this.getEvaluatedAttributes();
+      const normalAttributes = this.element.getNormalAttributes();
+      Object.keys(evaluatedAttributes).forEach(key => {
+        // attributes might be taken over by later animations or by states
+        if (graphicAnimate.validAttr(key) && isNil(normalAttributes?.[key])) {
+          graphicItem.setAttribute(key, evaluatedAttributes[key]);
+        }
+      });
       this.runnings = this.runnings.filter(running => running !== graphicAnimate);
       if (this.runnings.length === 0) {
         this.animationEnd();
-- 
2.43.0


From aea466d05736bc29d0e62415c5682bf6fd00a94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:02 +0000
Subject: [PATCH 146/151] fix: tooltips appear again after the pointer has left

---
 packages/vgrammar-core/src/interactions/dimension-tooltip.ts | 2 ++
 packages/vgrammar-core/src/interactions/tooltip.ts           | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/packages/vgrammar-core/src/interactions/dimension-tooltip.ts b/packages/vgrammar-core/src/interactions/dimension-tooltip.ts
index 7ca63e8..f973c14 100644
--- a/packages/vgrammar-core/src/interactions/dimension-tooltip.ts
+++ b/packages/vgrammar-core/src/interactions/dimension-tooltip.ts
@@ -154,6 +154,8 @@ export class DimensionTooltip extends BaseTooltip<DimensionTooltipOptions> {
   }, 10);
 
   protected handleTooltipHide = (event: any) => {
+    // a delayed call should not show the tooltip again
+    (this.handleTooltipShow as any).cancel();
     if (this._tooltipComponent) {
       this._tooltipComponent.hideAll();
     }
diff --git a/packages/vgrammar-core/src/interactions/tooltip.ts b/packages/vgrammar-core/src/interactions/tooltip.ts
index be64c0b..dd23c78 100644
--- a/packages/vgrammar-core/src/interactions/tooltip.ts
+++ b/packages/vgrammar-core/src/interactions/tooltip.ts
@@ -68,6 +68,8 @@ export class Tooltip extends BaseTooltip<TooltipOptions> {
   }, 10) as unknown as InteractionEventHandler;
 
   protected handleTooltipHide = (event: any) => {
+    // a delayed call should not show the tooltip again
+    (this.handleTooltipShow as any).cancel();
     if (this._tooltipComponent) {
       this._tooltipComponent.hideAll();
     }
-- 
2.43.0


From 8f6ccada26fc6896737474446ab30682e8b95aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:12 +0000
Subject: [PATCH 147/151] fix: rect crosshairs of custom size on continuous
 scales are not centered at the pointer

---
 packages/vgrammar-core/src/interactions/crosshair.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/interactions/crosshair.ts b/packages/vgrammar-core/src/interactions/crosshair.ts
index 454abf5..0045fec 100644
--- a/packages/vgrammar-core/src/interactions/crosshair.ts
+++ b/packages/vgrammar-core/src/interactions/crosshair.ts
@@ -156,7 +156,7 @@ export const generateRectCrosshairAttributes = (
   const customRectStyle = addition?.rectStyle;
   const size =
     defaultSize ??
-    (type === 'y'
+    (type === 'x'
       ? customRectStyle?.width ?? crosshairTheme.rectStyle.width
       : customRectStyle?.height ?? crosshairTheme.rectStyle.height);
   const points = computeCrosshairStartEnd(point, scale, type, groupSize, config, scale.type === 'band' ? 0 : -size / 2);
-- 
2.43.0


From e7403ca4f4c68add6875d119bae2a4fcae9d4873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:21 +0000
Subject: [PATCH 148/151] fix: circle crosshairs ignore the position of their
 container

---
 packages/vgrammar-core/src/interactions/crosshair.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/vgrammar-core/src/interactions/crosshair.ts b/packages/vgrammar-core/src/interactions/crosshair.ts
index 0045fec..4a0d6b0 100644
--- a/packages/vgrammar-core/src/interactions/crosshair.ts
+++ b/packages/vgrammar-core/src/interactions/crosshair.ts
@@ -368,6 +368,12 @@ export class Crosshair extends BaseInteraction<CrosshairOptions> {
     if (this.getCrosshairComponentType() !== CrosshairEnum.circleCrosshair) {
       attributes.x = containerPoint.x;
       attributes.y = containerPoint.y;
+    } else {
+      // the circle is positioned by its center only
+      attributes.center = {
+        x: attributes.center.x + containerPoint.x,
+        y: attributes.center.y + containerPoint.y
+      };
     }
     this._crosshairComponent.showAll();
     this._crosshairComponent.setAttributes(attributes);
-- 
2.43.0


From 0d9c598329b4aa8256ffb5b13fb6a10008db8d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:21 +0000
Subject: [PATCH 149/151] fix: fish eyes remain when their interaction is
 removed

---
 packages/vgrammar-core/src/interactions/fish-eye.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/interactions/fish-eye.ts b/packages/vgrammar-core/src/interactions/fish-eye.ts
index 0934311..286b5b8 100644
--- a/packages/vgrammar-core/src/interactions/fish-eye.ts
+++ b/packages/vgrammar-core/src/interactions/fish-eye.ts
@@ -177,7 +177,7 @@ export class FishEye extends BaseInteraction<FishEyeOptions> {
         const { scale } = this._state[dim as 'x' | 'y'];
 
         if (scale) {
-          scale.setRangeFactor(null);
+          scale.setFishEye(null);
           scale.commit();
         }
       });
-- 
2.43.0


From ebadf09b819f4cfb1f00b0f30d4b711c56e9838c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:07 +0000
Subject: [PATCH 150/151] fix: delayed handlers of interactions run after the
 interaction is removed

---
 packages/vgrammar-core/src/interactions/base.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/vgrammar-core/src/interactions/base.ts b/packages/vgrammar-core/src/interactions/base.ts
index a51da15..6c3aed8 100644
--- a/packages/vgrammar-core/src/interactions/base.ts
+++ b/packages/vgrammar-core/src/interactions/base.ts
@@ -76,6 +76,8 @@ export abstract class BaseInteraction<T extends IBaseInteractionOptions> {
     this._boundEvents = null;
     (events ?? []).forEach(evt => {
       if (evt.type && evt.handler) {
+        // calls of throttled handlers which are still delayed are dropped
+        (evt.handler as any).cancel?.();
         if (isArray(evt.type)) {
           evt.type.forEach(evtType => {
             evtType && evtType !== 'none' && this.view.removeEventListener(evtType, evt.handler);
-- 
2.43.0


From 903e623b08c82a31de0d619307e32477d09a7ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:10 +0000
Subject: [PATCH 151/151] fix: delayed moves of an earlier gesture change the
 focus of fish eyes

---
 packages/vgrammar-core/src/interactions/fish-eye.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/vgrammar-core/src/interactions/fish-eye.ts b/packages/vgrammar-core/src/interactions/fish-eye.ts
index 286b5b8..65d1dea 100644
--- a/packages/vgrammar-core/src/interactions/fish-eye.ts
+++ b/packages/vgrammar-core/src/interactions/fish-eye.ts
@@ -154,6 +154,7 @@ export class FishEye extends BaseInteraction<FishEyeOptions> {
 
     if (!this.options.triggerOff && this._isActive) {
       this._isActive = false;
+      (this.handleUpdate as any).cancel();
       this.updateView(null, e);
     }
   };
@@ -166,6 +167,7 @@ export class FishEye extends BaseInteraction<FishEyeOptions> {
     if (this._isActive) {
       this.updateView(null, e);
       this._isActive = false;
+      (this.handleUpdate as any).cancel();
     }
   };
 
-- 
2.43.0

