From f789641aef76ec7217a2143824e3a5635a68bbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:30 +0000
Subject: [PATCH 01/51] fix: do not cache the results of failed computations

A failed load or rendering was stored in the application cache, so the
next request for the same resource was answered 200 with an empty body,
or dereferenced a nil filing.
---
 pkg/cache/cache.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/cache/cache.go b/pkg/cache/cache.go
index a0cdfd3..1162cde 100644
--- a/pkg/cache/cache.go
+++ b/pkg/cache/cache.go
@@ -49,6 +49,9 @@ func MarshalExpressable(id string, name string, contextref string) ([]byte, erro
 	}
 	lock.RUnlock()
 	byteArr, err := renderables.MarshalExpressable(name, contextref, h)
+	if err != nil {
+		return nil, err
+	}
 	go func() {
 		if dry {
 			return
@@ -91,6 +94,9 @@ func MarshalRenderable(id string, hash string) ([]byte, error) {
 		}
 	}
 	byteArr, err := renderables.MarshalRenderable(hash, h)
+	if err != nil {
+		return nil, err
+	}
 	go func() {
 		if dry {
 			return
@@ -117,6 +123,9 @@ func MarshalCatalog(id string) ([]byte, error) {
 	}
 	lock.RUnlock()
 	byteArr, err := renderables.MarshalCatalog(h)
+	if err != nil {
+		return nil, err
+	}
 	go func() {
 		if dry {
 			return
@@ -143,6 +152,9 @@ func hydratable(id string) (*hydratables.Hydratable, error) {
 		return nil, fmt.Errorf("failed to discover folder, %v", err)
 	}
 	ret, err := hydratables.Hydrate(folder)
+	if err != nil {
+		return nil, err
+	}
 	go func() {
 		if dry {
 			return
-- 
2.43.0


From 954e15dd1d571bc97d378eef26c807c0651b53b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:59 +0000
Subject: [PATCH 02/51] fix: give every kind of cached value its own key space

Folders, catalogs, networks, facts, global schemas, the unit registry
and the entity names share one cache.  Their keys could coincide, so a
request could be served another resource's bytes, or panic on a value of
another type while holding the read lock.
---
 pkg/cache/cache.go             | 23 +++++++++++------------
 pkg/hydratables/global.go      |  5 +++--
 pkg/hydratables/measurement.go |  6 +++---
 3 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/pkg/cache/cache.go b/pkg/cache/cache.go
index 1162cde..6e41a69 100644
--- a/pkg/cache/cache.go
+++ b/pkg/cache/cache.go
@@ -1,9 +1,7 @@
 package cache
 
 import (
-	"encoding/hex"
 	"fmt"
-	"hash/fnv"
 	"path/filepath"
 	"sync"
 
@@ -36,9 +34,7 @@ func MarshalExpressable(id string, name string, contextref string) ([]byte, erro
 	if err != nil {
 		return nil, err
 	}
-	hash := fnv.New128a()
-	hash.Write([]byte(id + "/facts/" + name + ":" + contextref))
-	cachekey := hex.EncodeToString(hash.Sum([]byte{}))
+	cachekey := fmt.Sprintf("expressable %q %q %q", id, name, contextref)
 	lock.RLock()
 	if !dry {
 		if x, found := appCache.Get(cachekey); found {
@@ -64,9 +60,10 @@ func MarshalExpressable(id string, name string, contextref string) ([]byte, erro
 }
 
 func MarshalRenderable(id string, hash string) ([]byte, error) {
+	cachekey := fmt.Sprintf("renderable %q %q", id, hash)
 	lock.RLock()
 	if !dry {
-		if x, found := appCache.Get(id + "/" + hash); found {
+		if x, found := appCache.Get(cachekey); found {
 			ret := x.([]byte)
 			lock.RUnlock()
 			return ret, nil
@@ -88,7 +85,7 @@ func MarshalRenderable(id string, hash string) ([]byte, error) {
 			go func() {
 				lock.Lock()
 				defer lock.Unlock()
-				appCache.Set(id+"/"+hash, data, gocache.DefaultExpiration)
+				appCache.Set(cachekey, data, gocache.DefaultExpiration)
 			}()
 			return data, nil
 		}
@@ -103,7 +100,7 @@ func MarshalRenderable(id string, hash string) ([]byte, error) {
 		}
 		lock.Lock()
 		defer lock.Unlock()
-		appCache.Set(id+"/"+hash, byteArr, gocache.DefaultExpiration)
+		appCache.Set(cachekey, byteArr, gocache.DefaultExpiration)
 	}()
 	return byteArr, err
 }
@@ -113,9 +110,10 @@ func MarshalCatalog(id string) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	cachekey := fmt.Sprintf("catalog %q", id)
 	lock.RLock()
 	if !dry {
-		if x, found := appCache.Get(id + "/"); found {
+		if x, found := appCache.Get(cachekey); found {
 			ret := x.([]byte)
 			lock.RUnlock()
 			return ret, nil
@@ -132,15 +130,16 @@ func MarshalCatalog(id string) ([]byte, error) {
 		}
 		lock.Lock()
 		defer lock.Unlock()
-		appCache.Set(id+"/", byteArr, gocache.DefaultExpiration)
+		appCache.Set(cachekey, byteArr, gocache.DefaultExpiration)
 	}()
 	return byteArr, err
 }
 
 func hydratable(id string) (*hydratables.Hydratable, error) {
+	cachekey := fmt.Sprintf("hydratable %q", id)
 	lock.RLock()
 	if !dry {
-		if x, found := appCache.Get(id); found {
+		if x, found := appCache.Get(cachekey); found {
 			ret := x.(*hydratables.Hydratable)
 			lock.RUnlock()
 			return ret, nil
@@ -161,7 +160,7 @@ func hydratable(id string) (*hydratables.Hydratable, error) {
 		}
 		lock.Lock()
 		defer lock.Unlock()
-		appCache.Set(id, ret, gocache.DefaultExpiration)
+		appCache.Set(cachekey, ret, gocache.DefaultExpiration)
 	}()
 	return ret, err
 }
diff --git a/pkg/hydratables/global.go b/pkg/hydratables/global.go
index 3455052..e333b29 100644
--- a/pkg/hydratables/global.go
+++ b/pkg/hydratables/global.go
@@ -22,8 +22,9 @@ func HydrateGlobalSchema(urlStr string) (*Schema, error) {
 	if globalCache == nil {
 		return nil, fmt.Errorf("no accessible cache")
 	}
+	key := "schema " + urlStr
 	lock.RLock()
-	if x, found := globalCache.Get(urlStr); found {
+	if x, found := globalCache.Get(key); found {
 		ret := x.(Schema)
 		lock.RUnlock()
 		return &ret, nil
@@ -40,7 +41,7 @@ func HydrateGlobalSchema(urlStr string) (*Schema, error) {
 	go func() {
 		lock.Lock()
 		defer lock.Unlock()
-		globalCache.Set(urlStr, *schema, gocache.DefaultExpiration)
+		globalCache.Set(key, *schema, gocache.DefaultExpiration)
 	}()
 	return schema, err
 }
diff --git a/pkg/hydratables/measurement.go b/pkg/hydratables/measurement.go
index 29a2838..9598ffe 100644
--- a/pkg/hydratables/measurement.go
+++ b/pkg/hydratables/measurement.go
@@ -52,12 +52,12 @@ type Measurement struct {
 type UnitTypeRegistry map[string]map[string]Measurement
 
 func HydrateUnitTypeRegistry() (*UnitTypeRegistry, error) {
-	urlStr := attr.UTR
+	key := "utr " + attr.UTR
 	if globalCache == nil {
 		return nil, fmt.Errorf("no accessible cache")
 	}
 	lock.RLock()
-	if x, found := globalCache.Get(urlStr); found {
+	if x, found := globalCache.Get(key); found {
 		ret := x.(UnitTypeRegistry)
 		lock.RUnlock()
 		return &ret, nil
@@ -71,7 +71,7 @@ func HydrateUnitTypeRegistry() (*UnitTypeRegistry, error) {
 	go func() {
 		lock.Lock()
 		defer lock.Unlock()
-		globalCache.Set(urlStr, utr, gocache.DefaultExpiration)
+		globalCache.Set(key, utr, gocache.DefaultExpiration)
 	}()
 	return &utr, err
 }
-- 
2.43.0


From ba801078f157b60c6ab8d50da18e91524d6e4f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:19 +0000
Subject: [PATCH 03/51] fix: stop sharing error variables between goroutines
 when loading inline documents

Eight goroutines assigned the same two error variables without
synchronisation, and the goroutines collecting tagged facts read and
wrote one outside the lock.
---
 pkg/hydratables/document.go   | 14 ++++----------
 pkg/serializables/document.go | 21 ++++++++++++++-------
 2 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/pkg/hydratables/document.go b/pkg/hydratables/document.go
index a54e030..cbbdf56 100644
--- a/pkg/hydratables/document.go
+++ b/pkg/hydratables/document.go
@@ -32,20 +32,17 @@ func HydrateDocument(folder *serializables.Folder) (*Document, error) {
 	for _, nnonNumeric := range source.NonNumerics {
 		go func(nonNumeric *xmlquery.Node) {
 			defer wg1.Done()
-			if goErr != nil {
-				return
-			}
 			name := attr.FindXpathAttr(nonNumeric.Attr, "name")
 			contextRef := attr.FindXpathAttr(nonNumeric.Attr, "contextRef")
 			xmlName, err := np.ProvideXmlName(name.Value)
+			lock1.Lock()
+			defer lock1.Unlock()
 			if err != nil {
 				goErr = err
 				return
 			}
-			lock1.Lock()
 			nret[name.Value] = *xmlName
 			cret[contextRef.Value] = true
-			lock1.Unlock()
 		}(nnonNumeric)
 	}
 	wg1.Wait()
@@ -59,20 +56,17 @@ func HydrateDocument(folder *serializables.Folder) (*Document, error) {
 	for _, nnonFraction := range source.NonFractions {
 		go func(nonFraction *xmlquery.Node) {
 			defer wg2.Done()
-			if goErr2 != nil {
-				return
-			}
 			name := attr.FindXpathAttr(nonFraction.Attr, "name")
 			contextRef := attr.FindXpathAttr(nonFraction.Attr, "contextRef")
 			xmlName, err := np.ProvideXmlName(name.Value)
+			lock2.Lock()
+			defer lock2.Unlock()
 			if err != nil {
 				goErr2 = err
 				return
 			}
-			lock2.Lock()
 			nret[name.Value] = *xmlName
 			cret[contextRef.Value] = true
-			lock2.Unlock()
 		}(nnonFraction)
 	}
 	wg2.Wait()
diff --git a/pkg/serializables/document.go b/pkg/serializables/document.go
index e535dfb..57dfa06 100644
--- a/pkg/serializables/document.go
+++ b/pkg/serializables/document.go
@@ -33,10 +33,10 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 		return nil
 	}
 	var html *xmlquery.Node
-	var goErr error
 	htmlDone := make(chan bool)
 	go func() {
 		defer func() { htmlDone <- true }()
+		var goErr error
 		html, goErr = xmlquery.Query(doc, "//*[local-name()='html']")
 		if html == nil {
 			fmt.Println("Error: missing html")
@@ -50,6 +50,7 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	schemaRefsDone := make(chan bool)
 	go func() {
 		defer func() { schemaRefsDone <- true }()
+		var goErr error
 		schemaRefs, goErr = xmlquery.QueryAll(doc, "//*[local-name()='header' and namespace-uri()='"+attr.IX+"']//*[local-name()='schemaRef' and namespace-uri()='"+attr.LINK+"']")
 		if goErr != nil {
 			schemaRefs = make([]*xmlquery.Node, 0)
@@ -60,7 +61,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	contextsDone := make(chan bool)
 	go func() {
 		defer func() { contextsDone <- true }()
-		contexts, err = xmlquery.QueryAll(doc, "//*[local-name()='header' and namespace-uri()='"+attr.IX+"']//*[local-name()='resources' and namespace-uri()='"+attr.IX+"']//*[local-name()='context' and namespace-uri()='"+attr.XBRLI+"']")
+		var goErr error
+		contexts, goErr = xmlquery.QueryAll(doc, "//*[local-name()='header' and namespace-uri()='"+attr.IX+"']//*[local-name()='resources' and namespace-uri()='"+attr.IX+"']//*[local-name()='context' and namespace-uri()='"+attr.XBRLI+"']")
 		if goErr != nil {
 			contexts = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
@@ -70,7 +72,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	unitsDone := make(chan bool)
 	go func() {
 		defer func() { unitsDone <- true }()
-		units, err = xmlquery.QueryAll(doc, "//*[local-name()='header' and namespace-uri()='"+attr.IX+"']//*[local-name()='resources' and namespace-uri()='"+attr.IX+"']//*[local-name()='unit' and namespace-uri()='"+attr.XBRLI+"']")
+		var goErr error
+		units, goErr = xmlquery.QueryAll(doc, "//*[local-name()='header' and namespace-uri()='"+attr.IX+"']//*[local-name()='resources' and namespace-uri()='"+attr.IX+"']//*[local-name()='unit' and namespace-uri()='"+attr.XBRLI+"']")
 		if goErr != nil {
 			units = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
@@ -80,7 +83,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	nonFractionsDone := make(chan bool)
 	go func() {
 		defer func() { nonFractionsDone <- true }()
-		nonFractions, err = xmlquery.QueryAll(doc, "//*[local-name()='nonFraction' and namespace-uri()='"+attr.IX+"']")
+		var goErr error
+		nonFractions, goErr = xmlquery.QueryAll(doc, "//*[local-name()='nonFraction' and namespace-uri()='"+attr.IX+"']")
 		if goErr != nil {
 			nonFractions = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
@@ -90,7 +94,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	nonNumericsDone := make(chan bool)
 	go func() {
 		defer func() { nonNumericsDone <- true }()
-		nonNumerics, err = xmlquery.QueryAll(doc, "//*[local-name()='nonNumeric' and namespace-uri()='"+attr.IX+"']")
+		var goErr error
+		nonNumerics, goErr = xmlquery.QueryAll(doc, "//*[local-name()='nonNumeric' and namespace-uri()='"+attr.IX+"']")
 		if goErr != nil {
 			nonNumerics = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
@@ -100,7 +105,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	excludesDone := make(chan bool)
 	go func() {
 		defer func() { excludesDone <- true }()
-		excludes, err = xmlquery.QueryAll(doc, "//*[local-name()='exclude' and namespace-uri()='"+attr.IX+"']")
+		var goErr error
+		excludes, goErr = xmlquery.QueryAll(doc, "//*[local-name()='exclude' and namespace-uri()='"+attr.IX+"']")
 		if goErr != nil {
 			excludes = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
@@ -110,7 +116,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	footnoteRelationshipsDone := make(chan bool)
 	go func() {
 		defer func() { footnoteRelationshipsDone <- true }()
-		footnoteRelationships, err = xmlquery.QueryAll(doc, "//*[local-name()='relationship' and namespace-uri()='"+attr.IX+"' and @arcrole='"+attr.FactFootnoteArcrole+"']")
+		var goErr error
+		footnoteRelationships, goErr = xmlquery.QueryAll(doc, "//*[local-name()='relationship' and namespace-uri()='"+attr.IX+"' and @arcrole='"+attr.FactFootnoteArcrole+"']")
 		if goErr != nil {
 			footnoteRelationships = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
-- 
2.43.0


From 164462b105697fff16b66d610b42ebe00aef4342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:41 +0000
Subject: [PATCH 04/51] fix: collect the results of concurrent grid building
 separately

The three goroutines of a rendering appended to the same language and
label role slices and wrote the same error variable without
synchronisation, so results could be lost.
---
 pkg/renderables/renderable.go | 56 ++++++++++++++---------------------
 1 file changed, 23 insertions(+), 33 deletions(-)

diff --git a/pkg/renderables/renderable.go b/pkg/renderables/renderable.go
index 67fcd8e..b793639 100644
--- a/pkg/renderables/renderable.go
+++ b/pkg/renderables/renderable.go
@@ -42,52 +42,42 @@ func MarshalRenderable(slug string, h *hydratables.Hydratable) ([]byte, error) {
 			llinkrole := rset.RoleURI
 			if slug == hash(eentity, llinkrole, rset.Title) {
 				var (
-					p          PGrid
-					d          DGrid
-					c          CGrid
-					labelRoles []LabelRole
-					langs      []Lang
-					err        error
-					wg         sync.WaitGroup
+					p                                     PGrid
+					d                                     DGrid
+					c                                     CGrid
+					pLabelRoles, dLabelRoles, cLabelRoles []LabelRole
+					pLangs, dLangs, cLangs                []Lang
+					pErr, dErr, cErr                      error
+					wg                                    sync.WaitGroup
 				)
 				wg.Add(3)
-				labelRoles = make([]LabelRole, 0, 20)
-				langs = make([]Lang, 0, 8)
 				go func(entity string, linkrole string) {
 					defer wg.Done()
-					localP, lr, ln, localError := pGrid(entity, linkrole, h, h, h, h)
-					if localError != nil {
-						err = localError
-						return
-					}
-					p = localP
-					labelRoles = append(labelRoles, lr...)
-					langs = append(langs, ln...)
+					p, pLabelRoles, pLangs, pErr = pGrid(entity, linkrole, h, h, h, h)
 				}(eentity, llinkrole)
 				go func(entity string, linkrole string) {
 					defer wg.Done()
-					localD, lr, ln, localError := dGrid(entity, linkrole, h, h, h, h)
-					if localError != nil {
-						err = localError
-						return
-					}
-					d = localD
-					labelRoles = append(labelRoles, lr...)
-					langs = append(langs, ln...)
+					d, dLabelRoles, dLangs, dErr = dGrid(entity, linkrole, h, h, h, h)
 				}(eentity, llinkrole)
 				go func(entity string, linkrole string) {
 					defer wg.Done()
-					localC, lr, ln, localError := cGrid(entity, linkrole, h, h, h, h)
-					if localError != nil {
-						err = localError
-						return
-					}
-					c = localC
-					labelRoles = append(labelRoles, lr...)
-					langs = append(langs, ln...)
+					c, cLabelRoles, cLangs, cErr = cGrid(entity, linkrole, h, h, h, h)
 				}(eentity, llinkrole)
 				wg.Wait()
+				for _, err := range []error{pErr, dErr, cErr} {
+					if err != nil {
+						return nil, err
+					}
+				}
+				langs := make([]Lang, 0, 8)
+				langs = append(langs, pLangs...)
+				langs = append(langs, dLangs...)
+				langs = append(langs, cLangs...)
 				langs = dedupLang(langs)
+				labelRoles := make([]LabelRole, 0, 20)
+				labelRoles = append(labelRoles, pLabelRoles...)
+				labelRoles = append(labelRoles, dLabelRoles...)
+				labelRoles = append(labelRoles, cLabelRoles...)
 				labelRoles = dedupLabelRole(labelRoles)
 				p, d, c = formatPeriod(p, d, c, langs)
 				name := schemedEntity.Scheme + "/" + schemedEntity.CharData
-- 
2.43.0


From 0117985266bf12ecf802eccc41568d70d2ea818f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:49 +0000
Subject: [PATCH 05/51] fix: render networks when the entity has no registered
 name

The lookup already falls back to the scheme and identifier, but its
error was then returned instead of the rendered network.
---
 pkg/renderables/renderable.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pkg/renderables/renderable.go b/pkg/renderables/renderable.go
index b793639..b82a860 100644
--- a/pkg/renderables/renderable.go
+++ b/pkg/renderables/renderable.go
@@ -107,9 +107,6 @@ func MarshalRenderable(slug string, h *hydratables.Hydratable) ([]byte, error) {
 					Lang:       langs,
 					LabelRoles: labelRoles,
 				}
-				if err != nil {
-					return nil, err
-				}
 				return json.Marshal(ret)
 			}
 		}
-- 
2.43.0


From e931f671f0b276e604bf21db4515fc530022116e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:28 +0000
Subject: [PATCH 06/51] fix: number footnotes in order of appearance

The marks of each cell and the footnote list were numbered by separate
iterations over a map, so with two or more footnotes the marks pointed
at arbitrary footnotes.
---
 pkg/renderables/factualQuadrant.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/renderables/factualQuadrant.go b/pkg/renderables/factualQuadrant.go
index b6b1922..07c4748 100644
--- a/pkg/renderables/factualQuadrant.go
+++ b/pkg/renderables/factualQuadrant.go
@@ -26,6 +26,7 @@ func getFactualQuadrant(hrefs []string, relevantContexts []relevantContext,
 	ret := make([][]*MultilingualFact, rowCount)
 	footnoteGrid := make([][][]*hydratables.Footnote, rowCount)
 	idMap := make(map[string]*hydratables.Footnote)
+	ids := make([]string, 0)
 	for i := 0; i < rowCount; i++ {
 		row := make([]*MultilingualFact, colCount)
 		footnoteRow := make([][]*hydratables.Footnote, colCount)
@@ -39,6 +40,7 @@ func getFactualQuadrant(hrefs []string, relevantContexts []relevantContext,
 			for _, footnote := range footnotes {
 				if _, found := idMap[footnote.ID]; !found {
 					idMap[footnote.ID] = footnote
+					ids = append(ids, footnote.ID)
 				}
 			}
 			row[j] = render(fact, conceptFinder, measurementFinder, langs)
@@ -55,7 +57,7 @@ func getFactualQuadrant(hrefs []string, relevantContexts []relevantContext,
 			footnotes := footnoteGrid[i][j]
 			k := 1
 			ints := make([]int, 0)
-			for id := range idMap {
+			for _, id := range ids {
 				for _, footnote := range footnotes {
 					if footnote.ID == id {
 						ints = append(ints, k)
@@ -67,8 +69,8 @@ func getFactualQuadrant(hrefs []string, relevantContexts []relevantContext,
 			grid[i][j] = ints
 		}
 	}
-	for _, footnote := range idMap {
-		arr = append(arr, footnote.InnerHtml)
+	for _, id := range ids {
+		arr = append(arr, idMap[id].InnerHtml)
 	}
 	return ret, grid, arr
 }
-- 
2.43.0


From 42149d33a2293397dded198ee17369597608116a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:35 +0000
Subject: [PATCH 07/51] fix: show labels whose language is plain English

The case for "en" was empty, so such labels were dropped.
---
 pkg/renderables/label.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/renderables/label.go b/pkg/renderables/label.go
index 804ac2b..ee07b3d 100644
--- a/pkg/renderables/label.go
+++ b/pkg/renderables/label.go
@@ -65,8 +65,7 @@ func appendLabelModifiersFromHref(labelPack LabelPack, h *hydratables.Hydratable
 
 func appendLanguage(labelLinkLabel *hydratables.LabelLinkLabel, labelRole LabelRole, charData string, labelPack LabelPack) LabelPack {
 	switch labelLinkLabel.Lang {
-	case "en":
-	case "en-US":
+	case "en", "en-US":
 		labelPack[labelRole][English] = charData
 		break
 	case "es":
-- 
2.43.0


From 5ae081d5de338030438a9bca223d008bd91c8663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:42 +0000
Subject: [PATCH 08/51] fix: keep the languages of every label when merging
 labels

Each merged label replaced the languages collected so far for its role,
so a network announced only the languages of its last label.
---
 pkg/renderables/labelPack.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/renderables/labelPack.go b/pkg/renderables/labelPack.go
index 06afe3b..caf6cb6 100644
--- a/pkg/renderables/labelPack.go
+++ b/pkg/renderables/labelPack.go
@@ -38,7 +38,9 @@ func reduce(labelPacks []LabelPack) *LabelPack {
 	for i := 0; i < len(labelPacks); i++ {
 		item := labelPacks[i]
 		for labelRole, langPack := range item {
-			ret[labelRole] = make(LanguagePack)
+			if _, found := ret[labelRole]; !found {
+				ret[labelRole] = make(LanguagePack)
+			}
 			for lang, chardata := range langPack {
 				ret[labelRole][lang] = chardata
 			}
-- 
2.43.0


From c5c89c561042bc2eeb3f217d72e0522aeba92a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:50 +0000
Subject: [PATCH 09/51] fix: look the denominator of a ratio unit up by its own
 name

---
 pkg/hydratables/measurement.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/hydratables/measurement.go b/pkg/hydratables/measurement.go
index 9598ffe..fbbe39b 100644
--- a/pkg/hydratables/measurement.go
+++ b/pkg/hydratables/measurement.go
@@ -171,7 +171,7 @@ func (h *Hydratable) FindMeasurement(unitRef string) (*Measurement, *Measurement
 					return queryUTR(unit.Divide.UnitNumerator.Measure.XMLName.Space,
 							unit.Divide.UnitNumerator.Measure.XMLName.Local),
 						queryUTR(unit.Divide.UnitDenominator.Measure.XMLName.Space,
-							unit.Divide.UnitNumerator.Measure.XMLName.Local)
+							unit.Divide.UnitDenominator.Measure.XMLName.Local)
 				}
 				return queryUTR(unit.Measure.XMLName.Space, unit.Measure.XMLName.Local), nil
 			}
-- 
2.43.0


From 8ea60fde6f8f989499a2856b799cd92ca7ce987f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:03 +0000
Subject: [PATCH 10/51] fix: read closed and usable as declared on dimensional
 arcs

Both attributes were replaced by their defaults exactly when they were
well formed, an absent usable was read as false, and every
dimension-domain arc was reported as a default.
---
 pkg/hydratables/definitionLinkbase.go       | 5 +++--
 pkg/renderables/dimensionRelationshipSet.go | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/hydratables/definitionLinkbase.go b/pkg/hydratables/definitionLinkbase.go
index ac40a31..27b1b76 100644
--- a/pkg/hydratables/definitionLinkbase.go
+++ b/pkg/hydratables/definitionLinkbase.go
@@ -138,15 +138,16 @@ func hydrateDefinitionLink(linkbaseFile *serializables.DefinitionLinkbaseFile) [
 			closedAttr := attr.FindAttr(arc.XMLAttrs, "closed")
 			if closedAttr != nil {
 				closed, err := strconv.ParseBool(closedAttr.Value)
-				if err == nil {
+				if err != nil {
 					closed = false
 				}
 				newArc.Closed = closed
 			}
+			newArc.Usable = true
 			usableAttr := attr.FindAttr(arc.XMLAttrs, "usable")
 			if usableAttr != nil {
 				usable, err := strconv.ParseBool(usableAttr.Value)
-				if err == nil {
+				if err != nil {
 					usable = true
 				}
 				newArc.Usable = usable
diff --git a/pkg/renderables/dimensionRelationshipSet.go b/pkg/renderables/dimensionRelationshipSet.go
index 2b0883c..d03b53f 100644
--- a/pkg/renderables/dimensionRelationshipSet.go
+++ b/pkg/renderables/dimensionRelationshipSet.go
@@ -103,7 +103,7 @@ func getDRS(schemedEntity string, linkroleURI string, h *hydratables.Hydratable)
 					case attr.DimensionDomainArcrole:
 						dd = &DimensionDomainConnection{
 							Order:    order,
-							Default:  true,
+							Default:  false,
 							Usable:   arc.Usable,
 							External: arc.TargetRole,
 						}
-- 
2.43.0


From 55a381a7d9dda3ce8837e37df14fd4e06ec47450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:10 +0000
Subject: [PATCH 11/51] fix: resolve the target of a dimensional arc in its own
 link

The locators of an arc belong to the extended link that contains it; a
target role says where the relationships continue, not where the locator
is.  Looked up in the other role the target was often not found.
---
 pkg/renderables/dimensionRelationshipSet.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/pkg/renderables/dimensionRelationshipSet.go b/pkg/renderables/dimensionRelationshipSet.go
index d03b53f..da42287 100644
--- a/pkg/renderables/dimensionRelationshipSet.go
+++ b/pkg/renderables/dimensionRelationshipSet.go
@@ -65,12 +65,7 @@ func getDRS(schemedEntity string, linkroleURI string, h *hydratables.Hydratable)
 			if definitionLink.Role == linkroleURI {
 				arcs := definitionLink.DefinitionArcs
 				for _, arc := range arcs {
-					var to string
-					if arc.TargetRole != "" {
-						to = mapDLocatorToHref(arc.TargetRole, &definition, arc.To)
-					} else {
-						to = mapDLocatorToHref(linkroleURI, &definition, arc.To)
-					}
+					to := mapDLocatorToHref(linkroleURI, &definition, arc.To)
 					hrefs[to]++
 					from := mapDLocatorToHref(linkroleURI, &definition, arc.From)
 					hrefs[from]++
-- 
2.43.0


From 882f857c6e04d635e3abfd6d054ac1761046c68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:18 +0000
Subject: [PATCH 12/51] fix: resolve effective dimensions in their own
 definition linkbase

With several definition linkbases every dimension was also looked up in
the others, which listed it again under an unresolved address.
---
 pkg/renderables/effectiveDomainGrid.go | 32 ++++++++++++--------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/pkg/renderables/effectiveDomainGrid.go b/pkg/renderables/effectiveDomainGrid.go
index e363f7b..ef023f2 100644
--- a/pkg/renderables/effectiveDomainGrid.go
+++ b/pkg/renderables/effectiveDomainGrid.go
@@ -97,7 +97,7 @@ func getRootDomains(schemedEntity string, linkroleURI string, h *hydratables.Hyd
 				}
 				dArcs := dArcs(arcs)
 				domainMemberNetwork := graph.Tree(dArcs, attr.DomainMemberArcrole)
-				effectiveDimensions, effectiveDimensionHrefs, edLabelRoles, edLangs := getEffectiveDimensions(linkroleURI, arcs, h)
+				effectiveDimensions, effectiveDimensionHrefs, edLabelRoles, edLangs := getEffectiveDimensions(linkroleURI, &definition, arcs, h)
 				labelRoles = append(labelRoles, edLabelRoles...)
 				langs = append(langs, edLangs...)
 				dimensionDomainNetwork := graph.Tree(dArcs, attr.DimensionDomainArcrole)
@@ -156,28 +156,26 @@ func getRootDomains(schemedEntity string, linkroleURI string, h *hydratables.Hyd
 	return ret, labelRoles, langs
 }
 
-func getEffectiveDimensions(linkroleURI string,
+func getEffectiveDimensions(linkroleURI string, definition *hydratables.DefinitionLinkbase,
 	arcs []hydratables.DefinitionArc, h *hydratables.Hydratable) ([]EffectiveDimension, []string, []LabelRole, []Lang) {
 	labelPacks := []LabelPack{}
 	effectiveDimensionMap := make(map[string]bool)
 	effectiveDimensions := make([]EffectiveDimension, 0, len(arcs))
 	effectiveDimensionHrefs := make([]string, 0, len(arcs))
-	for _, definition := range h.DefinitionLinkbases {
-		for _, arc := range arcs {
-			if arc.Arcrole == attr.HypercubeDimensionArcrole {
-				dim := mapDLocatorToHref(linkroleURI, &definition, arc.To)
-				if effectiveDimensionMap[dim] {
-					continue
-				}
-				effectiveDimensionMap[dim] = true
-				effectiveDimensionHrefs = append(effectiveDimensionHrefs, dim)
-				dimLabelPack := GetLabel(h, dim)
-				labelPacks = append(labelPacks, dimLabelPack)
-				effectiveDimensions = append(effectiveDimensions, EffectiveDimension{
-					Href:  dim,
-					Label: dimLabelPack,
-				})
+	for _, arc := range arcs {
+		if arc.Arcrole == attr.HypercubeDimensionArcrole {
+			dim := mapDLocatorToHref(linkroleURI, definition, arc.To)
+			if effectiveDimensionMap[dim] {
+				continue
 			}
+			effectiveDimensionMap[dim] = true
+			effectiveDimensionHrefs = append(effectiveDimensionHrefs, dim)
+			dimLabelPack := GetLabel(h, dim)
+			labelPacks = append(labelPacks, dimLabelPack)
+			effectiveDimensions = append(effectiveDimensions, EffectiveDimension{
+				Href:  dim,
+				Label: dimLabelPack,
+			})
 		}
 	}
 	reduced := reduce(labelPacks)
-- 
2.43.0


From 6baf6302bf1abc48cc9656b559371760f2060904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:25 +0000
Subject: [PATCH 13/51] fix: list only a dimension's own domain among its
 effective members

Every dimension of an item listed the members of all domains of the role
and, for excluded hypercubes, the defaults of all dimensions.  A domain
without members of its own was not listed.
---
 pkg/renderables/effectiveDomainGrid.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pkg/renderables/effectiveDomainGrid.go b/pkg/renderables/effectiveDomainGrid.go
index ef023f2..4b02e62 100644
--- a/pkg/renderables/effectiveDomainGrid.go
+++ b/pkg/renderables/effectiveDomainGrid.go
@@ -331,7 +331,7 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 			if exclusiveHypercubeHref == mapDLocatorToHref(hypercubeDimensionNode.Locator) {
 				for _, dimensionDefaultNode := range dimensionDefaultNetwork.Children {
 					defaultDimensionHref := mapDLocatorToHref(dimensionDefaultNode.Locator)
-					if excludedDefaultMembersMap[defaultDimensionHref] {
+					if defaultDimensionHref != effectiveDimensionHref {
 						continue
 					}
 					for _, defaultMemberNode := range dimensionDefaultNode.Children {
@@ -407,8 +407,8 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 						if inclusiveDimensionHref != mapDLocatorToHref(dimensionDomainNode.Locator) {
 							continue
 						}
-						for _, node := range explicitDomainNetwork.Children {
-							traverseExplicitDomainNetwork(node, true)
+						for _, domainNode := range dimensionDomainNode.Children {
+							traverseExplicitDomainNetwork(findDomain(explicitDomainNetwork, domainNode), true)
 						}
 					}
 				}
@@ -427,8 +427,8 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 						if exclusiveDimensionHref != mapDLocatorToHref(dimensionDomainNode.Locator) {
 							continue
 						}
-						for _, node := range explicitDomainNetwork.Children {
-							traverseExplicitDomainNetwork(node, false)
+						for _, domainNode := range dimensionDomainNode.Children {
+							traverseExplicitDomainNetwork(findDomain(explicitDomainNetwork, domainNode), false)
 						}
 					}
 				}
@@ -451,3 +451,12 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 	})
 	return ret, labelPacks
 }
+
+func findDomain(explicitDomainNetwork *myarcs.RArc, domainNode *myarcs.RArc) *myarcs.RArc {
+	for _, node := range explicitDomainNetwork.Children {
+		if node.Locator == domainNode.Locator {
+			return node
+		}
+	}
+	return domainNode
+}
-- 
2.43.0


From 4daa6c627a74aac362f4ce4aaedee03760efe149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:56 +0000
Subject: [PATCH 14/51] fix: render linkbases, calculations and languages in a
 fixed order

Map iteration order decided which linkbase was used first, which
languages a calculation was rendered in and the order of the announced
languages and label roles, so answers differed between runs.
---
 pkg/renderables/calculationGrid.go          |  6 ++++--
 pkg/renderables/dimensionRelationshipSet.go |  3 ++-
 pkg/renderables/effectiveDomainGrid.go      |  3 ++-
 pkg/renderables/label.go                    |  3 ++-
 pkg/renderables/labelPack.go                |  4 ++++
 pkg/renderables/presentationGrid.go         |  3 ++-
 pkg/renderables/utility.go                  | 11 +++++++++++
 7 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/pkg/renderables/calculationGrid.go b/pkg/renderables/calculationGrid.go
index 484648f..f6309b3 100644
--- a/pkg/renderables/calculationGrid.go
+++ b/pkg/renderables/calculationGrid.go
@@ -47,7 +47,8 @@ func cGrid(schemedEntity string, linkroleURI string, h *hydratables.Hydratable,
 func getSummationItems(schemedEntity string, linkroleURI string, h *hydratables.Hydratable,
 	factFinder FactFinder, conceptFinder ConceptFinder, measurementFinder MeasurementFinder) ([]SummationItem, []LabelRole, []Lang) {
 	var calculationLinks []hydratables.CalculationLink
-	for _, calculation := range h.CalculationLinkbases {
+	for _, key := range sortedKeys(h.CalculationLinkbases) {
+		calculation := h.CalculationLinkbases[key]
 		for _, roleRef := range calculation.RoleRefs {
 			if linkroleURI == roleRef.RoleURI {
 				calculationLinks = calculation.CalculationLinks
@@ -94,7 +95,8 @@ func getSummationItems(schemedEntity string, linkroleURI string, h *hydratables.
 					langs      []Lang
 				)
 				ret := make([]SummationItem, 0, len(cMap))
-				for from, slice := range cMap {
+				for _, from := range sortedKeys(cMap) {
+					slice := cMap[from]
 					contributingConcepts := make([]ContributingConcept, 0, len(slice))
 					fqLabels := make([]string, 0, len(slice)+1)
 					for _, cstruct := range slice {
diff --git a/pkg/renderables/dimensionRelationshipSet.go b/pkg/renderables/dimensionRelationshipSet.go
index da42287..6c6dcc4 100644
--- a/pkg/renderables/dimensionRelationshipSet.go
+++ b/pkg/renderables/dimensionRelationshipSet.go
@@ -53,7 +53,8 @@ func getDRS(schemedEntity string, linkroleURI string, h *hydratables.Hydratable)
 	links := make([]DRSLink, 0, 20)
 	hrefs := make(map[string]int)
 
-	for _, definition := range h.DefinitionLinkbases {
+	for _, key := range sortedKeys(h.DefinitionLinkbases) {
+		definition := h.DefinitionLinkbases[key]
 		var definitionLinks []hydratables.DefinitionLink
 		for _, roleRef := range definition.RoleRefs {
 			if linkroleURI == roleRef.RoleURI {
diff --git a/pkg/renderables/effectiveDomainGrid.go b/pkg/renderables/effectiveDomainGrid.go
index 4b02e62..113cade 100644
--- a/pkg/renderables/effectiveDomainGrid.go
+++ b/pkg/renderables/effectiveDomainGrid.go
@@ -63,7 +63,8 @@ func getRootDomains(schemedEntity string, linkroleURI string, h *hydratables.Hyd
 	labelRoles := []LabelRole{}
 	langs := []Lang{}
 	labelPacks := make([]LabelPack, 0, 100)
-	for _, definition := range h.DefinitionLinkbases {
+	for _, key := range sortedKeys(h.DefinitionLinkbases) {
+		definition := h.DefinitionLinkbases[key]
 		var definitionLinks []hydratables.DefinitionLink
 		for _, roleRef := range definition.RoleRefs {
 			if linkroleURI == roleRef.RoleURI {
diff --git a/pkg/renderables/label.go b/pkg/renderables/label.go
index ee07b3d..a301ce3 100644
--- a/pkg/renderables/label.go
+++ b/pkg/renderables/label.go
@@ -21,7 +21,8 @@ func GetLabel(h *hydratables.Hydratable, href string) LabelPack {
 
 func appendLabelModifiersFromHref(labelPack LabelPack, h *hydratables.Hydratable, href string) LabelPack {
 	ret := labelPack
-	for _, labels := range h.LabelLinkbases {
+	for _, key := range sortedKeys(h.LabelLinkbases) {
+		labels := h.LabelLinkbases[key]
 		for _, labelLink := range labels.LabelLink {
 			for _, loc := range labelLink.Locs {
 				if loc.Href == href {
diff --git a/pkg/renderables/labelPack.go b/pkg/renderables/labelPack.go
index caf6cb6..087903b 100644
--- a/pkg/renderables/labelPack.go
+++ b/pkg/renderables/labelPack.go
@@ -1,5 +1,7 @@
 package renderables
 
+import "sort"
+
 type LabelRole string
 type Lang string
 
@@ -58,6 +60,8 @@ func destruct(labelPack LabelPack) ([]LabelRole, []Lang) {
 			langs = append(langs, lang)
 		}
 	}
+	sort.Slice(labelRoles, func(i, j int) bool { return labelRoles[i] < labelRoles[j] })
+	sort.Slice(langs, func(i, j int) bool { return langs[i] < langs[j] })
 	return labelRoles, langs
 }
 
diff --git a/pkg/renderables/presentationGrid.go b/pkg/renderables/presentationGrid.go
index 6cc34a8..273d1a0 100644
--- a/pkg/renderables/presentationGrid.go
+++ b/pkg/renderables/presentationGrid.go
@@ -70,7 +70,8 @@ func pArcs(pArcs []hydratables.PresentationArc) []myarcs.Arc {
 
 func getIndentedLabels(linkroleURI string, h *hydratables.Hydratable) ([]IndentedLabel, []LabelPack) {
 	labelPacks := make([]LabelPack, 0, 100)
-	for _, presentation := range h.PresentationLinkbases {
+	for _, key := range sortedKeys(h.PresentationLinkbases) {
+		presentation := h.PresentationLinkbases[key]
 		var presentationLinks []hydratables.PresentationLink
 		for _, roleRef := range presentation.RoleRefs {
 			if linkroleURI == roleRef.RoleURI {
diff --git a/pkg/renderables/utility.go b/pkg/renderables/utility.go
index 38232a3..46df9af 100644
--- a/pkg/renderables/utility.go
+++ b/pkg/renderables/utility.go
@@ -1,5 +1,16 @@
 package renderables
 
+import "sort"
+
+func sortedKeys[V any](m map[string]V) []string {
+	ret := make([]string, 0, len(m))
+	for key := range m {
+		ret = append(ret, key)
+	}
+	sort.Strings(ret)
+	return ret
+}
+
 func stringInSlice(a string, list []string) bool {
 	for _, b := range list {
 		if b == a {
-- 
2.43.0


From a22c888c7aa376645bb47a723f0977526949b07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:39 +0000
Subject: [PATCH 15/51] fix: skip facts whose context does not exist

A fact with a dangling contextRef dereferenced a nil context in a
goroutine and ended the process.
---
 pkg/renderables/contexts.go    | 3 +++
 pkg/renderables/expressable.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pkg/renderables/contexts.go b/pkg/renderables/contexts.go
index f1e311c..ae33e94 100644
--- a/pkg/renderables/contexts.go
+++ b/pkg/renderables/contexts.go
@@ -214,6 +214,9 @@ func getRelevantContexts(schemedEntity string, h *hydratables.Hydratable,
 				}
 				if factualEdgeHref == fact.Href {
 					context := getContext(&instance, fact.ContextRef)
+					if context == nil {
+						continue
+					}
 					entity := context.Entity
 					contextualSchemedEntity := entity.Identifier.Scheme + "/" + entity.Identifier.CharData
 					if contextualSchemedEntity == schemedEntity {
diff --git a/pkg/renderables/expressable.go b/pkg/renderables/expressable.go
index 36df4e0..2fdd396 100644
--- a/pkg/renderables/expressable.go
+++ b/pkg/renderables/expressable.go
@@ -42,6 +42,9 @@ func MarshalExpressable(name string, contextref string, h *hydratables.Hydratabl
 		return nil, nil
 	}
 	context := getContext(extracted, contextref)
+	if context == nil {
+		return nil, nil
+	}
 	period := periodMultilingualString(labels, context)
 	entity := stringify(&Entity{
 		Scheme:   context.Entity.Identifier.Scheme,
-- 
2.43.0


From a70a83c9fbf152dea1d4c151a0008a83dd5a7cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:46 +0000
Subject: [PATCH 16/51] fix: answer fact requests for folders without an inline
 document

Such folders have no document to look the tagged name up in; the request
panicked instead of giving the empty answer of an unknown fact.
---
 pkg/renderables/expressable.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/renderables/expressable.go b/pkg/renderables/expressable.go
index 2fdd396..62294de 100644
--- a/pkg/renderables/expressable.go
+++ b/pkg/renderables/expressable.go
@@ -19,6 +19,9 @@ type Expressable struct {
 }
 
 func MarshalExpressable(name string, contextref string, h *hydratables.Hydratable) ([]byte, error) {
+	if h.Document == nil {
+		return nil, nil
+	}
 	xmlname, found := h.Document.NamespaceMap[name]
 	if !found {
 		return nil, nil
-- 
2.43.0


From f2004d45ecc1234dd4a28e21e7b0909941c36adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:54 +0000
Subject: [PATCH 17/51] fix: head a single fact by the typed dimensions of its
 own context only

The typed domains of every context reporting the concept were passed on;
those without a member in the requested context emptied the headings.
---
 pkg/renderables/expressable.go | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/pkg/renderables/expressable.go b/pkg/renderables/expressable.go
index 62294de..da9d371 100644
--- a/pkg/renderables/expressable.go
+++ b/pkg/renderables/expressable.go
@@ -49,19 +49,13 @@ func MarshalExpressable(name string, contextref string, h *hydratables.Hydratabl
 		return nil, nil
 	}
 	period := periodMultilingualString(labels, context)
-	entity := stringify(&Entity{
-		Scheme:   context.Entity.Identifier.Scheme,
-		CharData: context.Entity.Identifier.CharData,
-	})
-	relevantContexts, segment, scenario, _ := getRelevantContexts(entity, h, []string{
-		href,
-	})
-	expressedContexts := make([]relevantContext, 0)
-	for _, relevantContext := range relevantContexts {
-		if relevantContext.ContextRef == contextref {
-			expressedContexts = append(expressedContexts, relevantContext)
-			break
-		}
+	members, segment, scenario, _ := getContextualMembers(context, h)
+	expressedContexts := []relevantContext{
+		{
+			ContextRef:   context.ID,
+			PeriodHeader: periodString(context),
+			Members:      members,
+		},
 	}
 	memberGrid, voidQuadrant := getMemberGridAndVoidQuadrant(expressedContexts, segment, scenario)
 	footnotes := h.GetFootnotes(hydratedFact)
-- 
2.43.0


From 466d4475ddd4037199049c83828248139049084a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:36 +0000
Subject: [PATCH 18/51] fix: skip contexts without an entity

---
 pkg/hydratables/instance.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/hydratables/instance.go b/pkg/hydratables/instance.go
index b54f7f8..b65402b 100644
--- a/pkg/hydratables/instance.go
+++ b/pkg/hydratables/instance.go
@@ -134,6 +134,9 @@ func hydrateContexts(instanceFile *serializables.InstanceFile, h *Hydratable) []
 		}
 		item.ID = idAttr.Value
 		newEntity := Entity{}
+		if len(context.Entity) <= 0 {
+			continue
+		}
 		entity := context.Entity[0]
 		if len(entity.Identifier) <= 0 {
 			continue
-- 
2.43.0


From 8878cc762c88179dea97c61de29de118409daec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:44 +0000
Subject: [PATCH 19/51] fix: stop reading a typed member that cannot be
 understood

An undeclared domain element was dereferenced as nil and an error other
than the end of the markup was retried forever.
---
 pkg/hydratables/instance.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/hydratables/instance.go b/pkg/hydratables/instance.go
index b65402b..ea9696e 100644
--- a/pkg/hydratables/instance.go
+++ b/pkg/hydratables/instance.go
@@ -351,6 +351,9 @@ func hydrateTypedMembers(dimensionHref string, typedMember string, instanceFile
 		if err == io.EOF {
 			break
 		}
+		if err != nil {
+			return nil, nil
+		}
 		switch token.(type) {
 		case xml.StartElement:
 			startElem, ok := token.(xml.StartElement)
@@ -360,7 +363,7 @@ func hydrateTypedMembers(dimensionHref string, typedMember string, instanceFile
 					continue
 				}
 				currHref, curr, err := h.NameQuery(startElemName.Space, startElemName.Local)
-				if err != nil {
+				if err != nil || curr == nil {
 					return nil, nil
 				}
 				order++
-- 
2.43.0


From 9cf5c0fd0df9497ece7f0b2547d785a5aab9cca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:31 +0000
Subject: [PATCH 20/51] fix: keep the other headings when a typed member has no
 simple value

A typed member without text of its own - empty, not understood, or made
of several elements - removed every dimension heading of the grid, and
sibling elements of a typed member were read as nested.
---
 pkg/hydratables/instance.go           |  2 ++
 pkg/renderables/contextualQuadrant.go | 25 ++++++++-----------------
 2 files changed, 10 insertions(+), 17 deletions(-)

diff --git a/pkg/hydratables/instance.go b/pkg/hydratables/instance.go
index ea9696e..aa0079f 100644
--- a/pkg/hydratables/instance.go
+++ b/pkg/hydratables/instance.go
@@ -390,8 +390,10 @@ func hydrateTypedMembers(dimensionHref string, typedMember string, instanceFile
 				prev, ok = stack.Pop()
 				if ok {
 					stack.Push(prev)
+					prevHref, _, _ = h.NameQuery(prev.XMLName.Space, prev.XMLName.Local)
 				} else {
 					prev = dimension
+					prevHref = dimensionHref
 				}
 			}
 		case xml.CharData:
diff --git a/pkg/renderables/contextualQuadrant.go b/pkg/renderables/contextualQuadrant.go
index 1d3fead..24c1b22 100644
--- a/pkg/renderables/contextualQuadrant.go
+++ b/pkg/renderables/contextualQuadrant.go
@@ -191,17 +191,14 @@ func getVoidQuadrant(relevantContexts []relevantContext, segmentTypedDomainTrees
 		}
 		if level > 1 {
 			if node.Locator != "" {
-				typedDomain, ok := allTypedDomainMap[node.Locator]
-				if !ok {
-					ret = VoidQuadrant{}
-					return
+				if typedDomain, ok := allTypedDomainMap[node.Locator]; ok {
+					ret = append(ret, &VoidCell{
+						IsParenthesized: isParenthesized,
+						Indentation:     level,
+						Dimension:       *dimension,
+						TypedDomain:     typedDomain,
+					})
 				}
-				ret = append(ret, &VoidCell{
-					IsParenthesized: isParenthesized,
-					Indentation:     level,
-					Dimension:       *dimension,
-					TypedDomain:     typedDomain,
-				})
 			}
 		}
 		if len(node.Children) <= 0 {
@@ -221,18 +218,12 @@ func getVoidQuadrant(relevantContexts []relevantContext, segmentTypedDomainTrees
 
 func reduceTrees(trees []myarcs.RArc) myarcs.RArc {
 	ret := myarcs.RArc{}
-	hasNonblankRoots := true
 	dimensions := make([]*myarcs.RArc, 0, len(trees))
 	for _, root := range trees {
-		if root.Locator == "" && len(root.Children) > 0 {
+		if root.Locator == "" {
 			dimensions = append(dimensions, root.Children...)
-		} else {
-			hasNonblankRoots = false
 		}
 	}
-	if !hasNonblankRoots {
-		return myarcs.RArc{}
-	}
 	ret.Order = 0
 	ret.Locator = ""
 	ret.Children = make([]*myarcs.RArc, 0)
-- 
2.43.0


From b67ffa0734260c6cfdcdb473c47337777d2ae176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:39 +0000
Subject: [PATCH 21/51] fix: tell scenario members from segment members in
 column headings

Both got the same kind of heading, so with one dimension used in the
segment and in the scenario members were shown under both.
---
 pkg/renderables/contextualQuadrant.go | 41 +++++++++------------------
 pkg/renderables/typedMember.go        |  5 ++--
 2 files changed, 16 insertions(+), 30 deletions(-)

diff --git a/pkg/renderables/contextualQuadrant.go b/pkg/renderables/contextualQuadrant.go
index 24c1b22..42ebfb9 100644
--- a/pkg/renderables/contextualQuadrant.go
+++ b/pkg/renderables/contextualQuadrant.go
@@ -66,37 +66,22 @@ func getMemberGridAndVoidQuadrant(relevantContexts []relevantContext,
 			cell := &ContextualMemberCell{}
 			for _, ctxMember := range ctx.Members {
 				if ctxMember.Dimension.Href == voidCell.Dimension.Href {
-					if ctxMember.IsSegment != voidCell.IsParenthesized {
-						if ctxMember.TypedDomain != nil && voidCell.TypedDomain != nil {
-							if ctxMember.TypedDomain.Href == voidCell.TypedDomain.Href {
-								cell = &ContextualMemberCell{
-									TypedMember: ctxMember.TypedMember,
-								}
-								break
-							}
-						} else {
-							if ctxMember.TypedDomain == nil && voidCell.TypedDomain == nil {
-								cell = &ContextualMemberCell{
-									ExplicitMember: ctxMember.ExplicitMember,
-								}
-								break
+					if ctxMember.IsSegment == voidCell.IsParenthesized {
+						continue
+					}
+					if ctxMember.TypedDomain != nil && voidCell.TypedDomain != nil {
+						if ctxMember.TypedDomain.Href == voidCell.TypedDomain.Href {
+							cell = &ContextualMemberCell{
+								TypedMember: ctxMember.TypedMember,
 							}
+							break
 						}
 					} else {
-						if ctxMember.TypedDomain != nil && voidCell.TypedDomain != nil {
-							if ctxMember.TypedDomain.Href == voidCell.TypedDomain.Href {
-								cell = &ContextualMemberCell{
-									TypedMember: ctxMember.TypedMember,
-								}
-								break
-							}
-						} else {
-							if ctxMember.TypedDomain == nil && voidCell.TypedDomain == nil {
-								cell = &ContextualMemberCell{
-									ExplicitMember: ctxMember.ExplicitMember,
-								}
-								break
+						if ctxMember.TypedDomain == nil && voidCell.TypedDomain == nil {
+							cell = &ContextualMemberCell{
+								ExplicitMember: ctxMember.ExplicitMember,
 							}
+							break
 						}
 					}
 				}
@@ -159,7 +144,7 @@ func getVoidQuadrant(relevantContexts []relevantContext, segmentTypedDomainTrees
 		if mapval, found := scenarioExplicitDimensionMap[href]; found {
 			for _, member := range mapval {
 				ret = append(ret, &VoidCell{
-					IsParenthesized: false,
+					IsParenthesized: true,
 					Indentation:     0,
 					Dimension:       member.Dimension,
 				})
diff --git a/pkg/renderables/typedMember.go b/pkg/renderables/typedMember.go
index 67c642b..6c7be84 100644
--- a/pkg/renderables/typedMember.go
+++ b/pkg/renderables/typedMember.go
@@ -27,7 +27,7 @@ func getTypedMember(typedMember hydratables.TypedMember, dimension Dimension,
 	labelPacks := []LabelPack{
 		dimension.Label,
 	}
-	for typedDomain, typedMember := range typedMember.TypedMembersMap {
+	for _, typedDomain := range sortedKeys(typedMember.TypedMembersMap) {
 		typedDomainLabel := GetLabel(h, typedDomain)
 		ret = append(ret, RelevantMember{
 			Dimension: dimension,
@@ -35,7 +35,8 @@ func getTypedMember(typedMember hydratables.TypedMember, dimension Dimension,
 				Href:  typedDomain,
 				Label: typedDomainLabel,
 			},
-			TypedMember: typedMember,
+			TypedMember: typedMember.TypedMembersMap[typedDomain],
+			IsSegment:   isSegment,
 		})
 	}
 	return ret, arcs, labelPacks
-- 
2.43.0


From a93c06d4cb9e9f928a121fafa22d99a8ae677b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:48 +0000
Subject: [PATCH 22/51] fix: head every typed dimension by its own name

The first typed dimension was used for the headings of all of them, so
the members of the others were not shown; the headings were also left
unsorted.
---
 pkg/renderables/contextualQuadrant.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/renderables/contextualQuadrant.go b/pkg/renderables/contextualQuadrant.go
index 42ebfb9..16b5f43 100644
--- a/pkg/renderables/contextualQuadrant.go
+++ b/pkg/renderables/contextualQuadrant.go
@@ -158,7 +158,7 @@ func getVoidQuadrant(relevantContexts []relevantContext, segmentTypedDomainTrees
 	var dimension *Dimension
 	var makeIndents func(node *myarcs.RArc, level int, isParenthesized bool)
 	makeIndents = func(node *myarcs.RArc, level int, isParenthesized bool) {
-		if dimension == nil && node.Locator != "" {
+		if level == 1 {
 			mappedDimension, ok := allDimensionMap[node.Locator]
 			if !ok {
 				ret = VoidQuadrant{}
@@ -227,7 +227,7 @@ func dedupNodes(children []*myarcs.RArc, dst myarcs.RArc, order int) *myarcs.RAr
 		dupLocators = append(dupLocators, node.Locator)
 	}
 	dedupLocators := dedup(dupLocators)
-	dedupLocators = sort.StringSlice(dedupLocators)
+	sort.Strings(dedupLocators)
 	dedupChildren := make([]*myarcs.RArc, 0)
 	for _, dedupLocator := range dedupLocators {
 		order++
-- 
2.43.0


From d56f2b019197e5978c85eb5f7d74d481b9067213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:51:15 +0000
Subject: [PATCH 23/51] fix: leave out only the typed dimension that has no
 members

A typed dimension whose members are all empty removed the headings of
the dimensions before it.
---
 pkg/renderables/contextualQuadrant.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pkg/renderables/contextualQuadrant.go b/pkg/renderables/contextualQuadrant.go
index 16b5f43..4c71919 100644
--- a/pkg/renderables/contextualQuadrant.go
+++ b/pkg/renderables/contextualQuadrant.go
@@ -161,7 +161,6 @@ func getVoidQuadrant(relevantContexts []relevantContext, segmentTypedDomainTrees
 		if level == 1 {
 			mappedDimension, ok := allDimensionMap[node.Locator]
 			if !ok {
-				ret = VoidQuadrant{}
 				return
 			}
 			dimension = mappedDimension
-- 
2.43.0


From 8091620cb0cf183398f90d0cca7fe267275decbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:51:24 +0000
Subject: [PATCH 24/51] fix: find all footnotes of a fact

The search ended at the first footnote link with no arcs or with the
fact, looked labels up across links although they are scoped to one, and
matched footnotes by id although arcs refer to them by label.
---
 pkg/hydratables/fact.go | 113 +++++++++++++++++++---------------------
 1 file changed, 53 insertions(+), 60 deletions(-)

diff --git a/pkg/hydratables/fact.go b/pkg/hydratables/fact.go
index 1ba33fc..28cedee 100644
--- a/pkg/hydratables/fact.go
+++ b/pkg/hydratables/fact.go
@@ -3,9 +3,7 @@ package hydratables
 import (
 	"strings"
 
-	"ecksbee.com/telefacts/internal/graph"
 	"ecksbee.com/telefacts/pkg/attr"
-	myarcs "github.com/joshuanario/arcs"
 )
 
 type Fact struct {
@@ -29,79 +27,74 @@ func (h *Hydratable) FindFact(href string, contextRef string) *Fact {
 	return nil
 }
 
-func fnoteArcs(fnoteArcs []FootnoteArc) []myarcs.Arc {
-	ret := make([]myarcs.Arc, 0, len(fnoteArcs))
-	for i, fnoteArc := range fnoteArcs {
-		ret = append(ret, myarcs.Arc{
-			Arcrole: fnoteArc.Arcrole,
-			Order:   float64(i),
-			From:    fnoteArc.From,
-			To:      fnoteArc.To,
-		})
-	}
-	return ret
-}
-
 func (h *Hydratable) GetFootnotes(fact *Fact) []*Footnote {
-	if fact == nil {
-		return make([]*Footnote, 0)
+	ret := make([]*Footnote, 0)
+	if fact == nil || fact.ID == "" {
+		return ret
 	}
+	taken := make(map[string]bool)
 	for _, instance := range h.Instances {
 		for _, footnoteLink := range instance.FootnoteLinks {
-			arcs := footnoteLink.FootnoteArcs
-			fnoteArcs := fnoteArcs(arcs)
-			root := graph.Tree(fnoteArcs, attr.FactFootnoteArcrole)
-			ret := make([]*Footnote, 0, len(arcs))
-			if len(root.Children) <= 0 {
-				return nil
-			}
-			for _, child := range root.Children {
-				href := mapFnoteLocatorToHref(&instance, child.Locator)
-				locatedID := href
-				pos := strings.LastIndex(href, "#")
-				if pos > -1 {
-					adjustedPos := pos + 1
-					if adjustedPos < len(href) {
-						locatedID = href[adjustedPos:]
-					}
+			for _, arc := range footnoteLink.FootnoteArcs {
+				if arc.Arcrole != attr.FactFootnoteArcrole {
+					continue
 				}
-				if locatedID == fact.ID {
-					for _, grandchild := range child.Children {
-						footnoteHref := mapFnoteLocatorToHref(&instance, grandchild.Locator)
-						locatedFnoteID := footnoteHref
-						pos := strings.LastIndex(footnoteHref, "#")
-						if pos > -1 {
-							adjustedPos := pos + 1
-							if adjustedPos < len(footnoteHref) {
-								locatedFnoteID = footnoteHref[adjustedPos:]
-							}
-						}
-						locatedFootnote := h.FindFootnote(locatedFnoteID)
-						if locatedFootnote != nil {
-							ret = append(ret, locatedFootnote)
-						}
+				if !stringInSlice(fact.ID, locatedIDs(&footnoteLink, arc.From)) {
+					continue
+				}
+				for _, footnote := range h.locatedFootnotes(&footnoteLink, arc.To) {
+					if !taken[footnote.ID] {
+						taken[footnote.ID] = true
+						ret = append(ret, footnote)
 					}
-					return ret
 				}
 			}
 		}
 	}
-	return nil
+	return ret
 }
 
-func mapFnoteLocatorToHref(instance *Instance, locator string) string {
-	footnoteLinks := instance.FootnoteLinks
-	for _, footnoteLink := range footnoteLinks {
-		for _, loc := range footnoteLink.Locs {
-			if loc.Label == locator {
-				i := strings.Index(loc.Href, "#")
-				if i >= 0 {
-					return loc.Href
-				}
+func (h *Hydratable) locatedFootnotes(footnoteLink *FootnoteLink, label string) []*Footnote {
+	ret := make([]*Footnote, 0)
+	for _, footnote := range footnoteLink.Footnotes {
+		if footnote.Label == label {
+			ret = append(ret, &footnote)
+		}
+	}
+	if len(ret) > 0 {
+		return ret
+	}
+	for _, id := range locatedIDs(footnoteLink, label) {
+		if footnote := h.FindFootnote(id); footnote != nil {
+			ret = append(ret, footnote)
+		}
+	}
+	return ret
+}
+
+func locatedIDs(footnoteLink *FootnoteLink, label string) []string {
+	ret := make([]string, 0)
+	for _, loc := range footnoteLink.Locs {
+		if loc.Label == label {
+			pos := strings.LastIndex(loc.Href, "#")
+			if pos > -1 {
+				ret = append(ret, loc.Href[pos+1:])
 			}
 		}
 	}
-	return "#" + locator
+	if len(ret) <= 0 {
+		ret = append(ret, label)
+	}
+	return ret
+}
+
+func stringInSlice(a string, list []string) bool {
+	for _, b := range list {
+		if b == a {
+			return true
+		}
+	}
+	return false
 }
 
 func (h *Hydratable) FindFootnote(id string) *Footnote {
-- 
2.43.0


From f66018ccf74ff4049fc6f1f97f74fc3193a90ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:51:52 +0000
Subject: [PATCH 25/51] fix: ignore whitespace around names, dates, identifiers
 and numbers

XBRL collapses whitespace in these values, but a line break around a
member, measure, date, identifier or number kept it from being
recognised.
---
 pkg/hydratables/instance.go | 29 +++++++++++++++--------------
 pkg/renderables/fact.go     |  2 ++
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/pkg/hydratables/instance.go b/pkg/hydratables/instance.go
index aa0079f..2ee4f26 100644
--- a/pkg/hydratables/instance.go
+++ b/pkg/hydratables/instance.go
@@ -141,14 +141,15 @@ func hydrateContexts(instanceFile *serializables.InstanceFile, h *Hydratable) []
 		if len(entity.Identifier) <= 0 {
 			continue
 		}
-		if entity.Identifier[0].CharData == "" {
+		identifier := strings.TrimSpace(entity.Identifier[0].CharData)
+		if identifier == "" {
 			continue
 		}
 		schemeAttr := attr.FindAttr(entity.Identifier[0].XMLAttrs, "scheme")
 		if schemeAttr == nil {
 			continue
 		}
-		newEntity.Identifier.CharData = entity.Identifier[0].CharData
+		newEntity.Identifier.CharData = identifier
 		newEntity.Identifier.Scheme = schemeAttr.Value
 		if len(entity.Segment) > 0 {
 			segment := DimensionContext{}
@@ -159,7 +160,7 @@ func hydrateContexts(instanceFile *serializables.InstanceFile, h *Hydratable) []
 					if dimAttr == nil {
 						continue
 					}
-					dimName := attr.Xmlns(instanceFile.XMLAttrs, dimAttr.Value)
+					dimName := attr.Xmlns(instanceFile.XMLAttrs, strings.TrimSpace(dimAttr.Value))
 					if dimName.Space == "" {
 						continue
 					}
@@ -167,7 +168,7 @@ func hydrateContexts(instanceFile *serializables.InstanceFile, h *Hydratable) []
 					if err != nil || dimRef == "" || dimConcept == nil {
 						continue
 					}
-					memName := attr.Xmlns(instanceFile.XMLAttrs, explicitMember.CharData)
+					memName := attr.Xmlns(instanceFile.XMLAttrs, strings.TrimSpace(explicitMember.CharData))
 					if memName.Space == "" {
 						continue
 					}
@@ -201,7 +202,7 @@ func hydrateContexts(instanceFile *serializables.InstanceFile, h *Hydratable) []
 					if dimAttr == nil {
 						continue
 					}
-					dimName := attr.Xmlns(instanceFile.XMLAttrs, dimAttr.Value)
+					dimName := attr.Xmlns(instanceFile.XMLAttrs, strings.TrimSpace(dimAttr.Value))
 					if dimName.Space == "" {
 						continue
 					}
@@ -233,14 +234,14 @@ func hydrateContexts(instanceFile *serializables.InstanceFile, h *Hydratable) []
 		if len(context.Period) > 0 {
 			if len(context.Period[0].Instant) > 0 {
 				instant := Instant{
-					CharData: context.Period[0].Instant[0].CharData,
+					CharData: strings.TrimSpace(context.Period[0].Instant[0].CharData),
 				}
 				item.Period.Instant = instant
 			}
 			if len(context.Period[0].StartDate) > 0 && len(context.Period[0].EndDate) > 0 {
 				duration := Duration{
-					StartDate: context.Period[0].StartDate[0].CharData,
-					EndDate:   context.Period[0].EndDate[0].CharData,
+					StartDate: strings.TrimSpace(context.Period[0].StartDate[0].CharData),
+					EndDate:   strings.TrimSpace(context.Period[0].EndDate[0].CharData),
 				}
 				item.Period.Duration = duration
 			}
@@ -254,7 +255,7 @@ func hydrateContexts(instanceFile *serializables.InstanceFile, h *Hydratable) []
 					if dimAttr == nil || dimAttr.Value == "" {
 						continue
 					}
-					dimName := attr.Xmlns(instanceFile.XMLAttrs, dimAttr.Value)
+					dimName := attr.Xmlns(instanceFile.XMLAttrs, strings.TrimSpace(dimAttr.Value))
 					if dimName.Space == "" {
 						continue
 					}
@@ -262,7 +263,7 @@ func hydrateContexts(instanceFile *serializables.InstanceFile, h *Hydratable) []
 					if err != nil || dimRef == "" || dimConcept == nil {
 						continue
 					}
-					memName := attr.Xmlns(instanceFile.XMLAttrs, explicitMember.CharData)
+					memName := attr.Xmlns(instanceFile.XMLAttrs, strings.TrimSpace(explicitMember.CharData))
 					if memName.Space == "" {
 						continue
 					}
@@ -296,7 +297,7 @@ func hydrateContexts(instanceFile *serializables.InstanceFile, h *Hydratable) []
 					if dimAttr == nil || dimAttr.Value == "" {
 						continue
 					}
-					dimName := attr.Xmlns(instanceFile.XMLAttrs, dimAttr.Value)
+					dimName := attr.Xmlns(instanceFile.XMLAttrs, strings.TrimSpace(dimAttr.Value))
 					if dimName.Space == "" {
 						continue
 					}
@@ -435,12 +436,12 @@ func hydrateUnits(instanceFile *serializables.InstanceFile) []Unit {
 			if len(unit.Divide[0].UnitDenominator[0].Measure) <= 0 || len(unit.Divide[0].UnitNumerator[0].Measure) <= 0 {
 				continue
 			}
-			numeratorPrefixedName := unit.Divide[0].UnitNumerator[0].Measure[0].CharData
+			numeratorPrefixedName := strings.TrimSpace(unit.Divide[0].UnitNumerator[0].Measure[0].CharData)
 			numeratorMeasure := UnitMeasure{
 				XMLName:  attr.Xmlns(instanceFile.XMLAttrs, numeratorPrefixedName),
 				CharData: numeratorPrefixedName,
 			}
-			denominatorPrefixedName := unit.Divide[0].UnitDenominator[0].Measure[0].CharData
+			denominatorPrefixedName := strings.TrimSpace(unit.Divide[0].UnitDenominator[0].Measure[0].CharData)
 			denominatorMeasure := UnitMeasure{
 				XMLName:  attr.Xmlns(instanceFile.XMLAttrs, denominatorPrefixedName),
 				CharData: denominatorPrefixedName,
@@ -455,7 +456,7 @@ func hydrateUnits(instanceFile *serializables.InstanceFile) []Unit {
 			}
 			item.Divide = divide
 		} else {
-			itemPrefixedName := unit.Measure[0].CharData
+			itemPrefixedName := strings.TrimSpace(unit.Measure[0].CharData)
 			item.Measure = UnitMeasure{
 				XMLName:  attr.Xmlns(instanceFile.XMLAttrs, itemPrefixedName),
 				CharData: itemPrefixedName,
diff --git a/pkg/renderables/fact.go b/pkg/renderables/fact.go
index 920bb57..bd185c4 100644
--- a/pkg/renderables/fact.go
+++ b/pkg/renderables/fact.go
@@ -3,6 +3,7 @@ package renderables
 import (
 	"fmt"
 	"math/big"
+	"strings"
 
 	"ecksbee.com/telefacts/pkg/attr"
 	"ecksbee.com/telefacts/pkg/hydratables"
@@ -52,6 +53,7 @@ func render(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFinder, lang
 }
 
 func SigFigs(value string, precision hydratables.Precision, concept *hydratables.Concept, g rune) (*FactExpression, error) {
+	value = strings.TrimSpace(value)
 	isPercent := concept.Type.Space == attr.NUM &&
 		concept.Type.Local == attr.PercentItemType
 	if isPercent {
-- 
2.43.0


From 56d32e90c40181866e678533d0e09e44d610f24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:00 +0000
Subject: [PATCH 26/51] fix: do not take a namespace declaration for an
 attribute

Declaring a prefix such as "id" or "type" hid the attribute of that
name.
---
 pkg/attr/attr.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/attr/attr.go b/pkg/attr/attr.go
index 79d62de..8452d5f 100644
--- a/pkg/attr/attr.go
+++ b/pkg/attr/attr.go
@@ -9,7 +9,7 @@ import (
 
 func FindAttr(attrs []xml.Attr, attr string) *xml.Attr {
 	for _, a := range attrs {
-		if a.Name.Local == attr {
+		if a.Name.Local == attr && a.Name.Space != "xmlns" {
 			return &a
 		}
 	}
@@ -18,7 +18,7 @@ func FindAttr(attrs []xml.Attr, attr string) *xml.Attr {
 
 func FindXpathAttr(attrs []xmlquery.Attr, attr string) *xmlquery.Attr {
 	for _, a := range attrs {
-		if a.Name.Local == attr {
+		if a.Name.Local == attr && a.Name.Space != "xmlns" {
 			return &a
 		}
 	}
-- 
2.43.0


From 374625abf12383b1d2133fc2c133e601b64d9cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:12 +0000
Subject: [PATCH 27/51] fix: list roles declared anywhere in a schema's
 annotations

Only the first appinfo of the first annotation was read.
---
 pkg/hydratables/schema.go | 73 +++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 38 deletions(-)

diff --git a/pkg/hydratables/schema.go b/pkg/hydratables/schema.go
index e115d82..e7803d4 100644
--- a/pkg/hydratables/schema.go
+++ b/pkg/hydratables/schema.go
@@ -86,50 +86,47 @@ func hydrateAttributeFormDefault(file *serializables.SchemaFile) string {
 }
 
 func hydrateAnnotation(file *serializables.SchemaFile) Annotation {
-	ret := Annotation{}
-	if len(file.Annotation) <= 0 {
-		return ret
-	}
-	if file.Annotation[0].XMLName.Space != attr.XSD {
-		return ret
-	}
-	if len(file.Annotation[0].Appinfo) <= 0 {
-		return ret
-	}
-	if file.Annotation[0].Appinfo[0].XMLName.Space != attr.XSD {
-		return ret
-	}
-	roleTypes := make([]RoleType, 0, len(file.Annotation[0].Appinfo[0].RoleType))
-	for _, roleType := range file.Annotation[0].Appinfo[0].RoleType {
-		if roleType.XMLName.Space != attr.LINK {
-			continue
-		}
-		newRoleType := RoleType{}
-		idAttr := attr.FindAttr(roleType.XMLAttrs, "id")
-		if idAttr == nil || idAttr.Value == "" {
-			continue
-		}
-		newRoleType.ID = idAttr.Value
-		roleuriAttr := attr.FindAttr(roleType.XMLAttrs, "roleURI")
-		if roleuriAttr == nil || roleuriAttr.Value == "" {
+	roleTypes := make([]RoleType, 0)
+	for _, annotation := range file.Annotation {
+		if annotation.XMLName.Space != attr.XSD {
 			continue
 		}
-		newRoleType.RoleURI = roleuriAttr.Value
-		if len(roleType.Definition) > 0 {
-			newRoleType.Definition = roleType.Definition[0].CharData
-		}
-		if len(roleType.UsedOn) > 0 {
-			newRoleType.UsedOn = make([]struct{ CharData string }, 0, len(roleType.UsedOn))
-			for _, usedOn := range roleType.UsedOn {
-				if usedOn.XMLName.Space != attr.LINK {
+		for _, appinfo := range annotation.Appinfo {
+			if appinfo.XMLName.Space != attr.XSD {
+				continue
+			}
+			for _, roleType := range appinfo.RoleType {
+				if roleType.XMLName.Space != attr.LINK {
+					continue
+				}
+				newRoleType := RoleType{}
+				idAttr := attr.FindAttr(roleType.XMLAttrs, "id")
+				if idAttr == nil || idAttr.Value == "" {
 					continue
 				}
-				newRoleType.UsedOn = append(newRoleType.UsedOn, struct{ CharData string }{
-					CharData: usedOn.CharData,
-				})
+				newRoleType.ID = idAttr.Value
+				roleuriAttr := attr.FindAttr(roleType.XMLAttrs, "roleURI")
+				if roleuriAttr == nil || roleuriAttr.Value == "" {
+					continue
+				}
+				newRoleType.RoleURI = roleuriAttr.Value
+				if len(roleType.Definition) > 0 {
+					newRoleType.Definition = roleType.Definition[0].CharData
+				}
+				if len(roleType.UsedOn) > 0 {
+					newRoleType.UsedOn = make([]struct{ CharData string }, 0, len(roleType.UsedOn))
+					for _, usedOn := range roleType.UsedOn {
+						if usedOn.XMLName.Space != attr.LINK {
+							continue
+						}
+						newRoleType.UsedOn = append(newRoleType.UsedOn, struct{ CharData string }{
+							CharData: usedOn.CharData,
+						})
+					}
+				}
+				roleTypes = append(roleTypes, newRoleType)
 			}
 		}
-		roleTypes = append(roleTypes, newRoleType)
 	}
 	return Annotation{
 		Appinfo: Appinfo{
-- 
2.43.0


From 3a531c826d43102f7bd7f63c4bd9be01dd39c0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:21 +0000
Subject: [PATCH 28/51] fix: report an undecodable source document in folders
 with pictures

The document was used before it was checked.
---
 pkg/serializables/folder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/serializables/folder.go b/pkg/serializables/folder.go
index d788093..2387244 100644
--- a/pkg/serializables/folder.go
+++ b/pkg/serializables/folder.go
@@ -57,12 +57,12 @@ func Discover(id string) (*Folder, error) {
 			return nil, err
 		}
 		doc := DecodeIxbrlFile(data)
-		if len(ret.Images) > 0 {
-			doc.Bytes = TransformInlineImages(data, ret.Images)
-		}
 		if doc == nil {
 			return nil, fmt.Errorf("failed to decode IXBRL source document")
 		}
+		if len(ret.Images) > 0 {
+			doc.Bytes = TransformInlineImages(data, ret.Images)
+		}
 		ret.Document = doc
 		extracted := filepath.Join(workingDir, entryFileName+".xml")
 		if _, err := os.Stat(extracted); errors.Is(err, os.ErrNotExist) {
-- 
2.43.0


From f1777e2d287579116a28ab9b220ff5150a19b7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:30 +0000
Subject: [PATCH 29/51] fix: read every schema of a folder once

Schemas that include or import each other were followed until memory ran
out, and shared ones were read once per path leading to them.
---
 pkg/serializables/folder.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pkg/serializables/folder.go b/pkg/serializables/folder.go
index 2387244..d5fcc16 100644
--- a/pkg/serializables/folder.go
+++ b/pkg/serializables/folder.go
@@ -16,6 +16,7 @@ import (
 
 type Folder struct {
 	wLock                 sync.Mutex
+	visited               map[string]bool
 	EntryFileName         string
 	Dir                   string
 	Document              *Document
@@ -38,6 +39,7 @@ func Discover(id string) (*Folder, error) {
 	ret := &Folder{
 		EntryFileName:         entryFileName,
 		Dir:                   workingDir,
+		visited:               make(map[string]bool),
 		Namespaces:            make(map[string]string),
 		Instances:             make(map[string]InstanceFile),
 		Schemas:               make(map[string]SchemaFile),
@@ -90,6 +92,16 @@ func Discover(id string) (*Folder, error) {
 	return ret, nil
 }
 
+func (folder *Folder) visit(schemaLocation string) bool {
+	folder.wLock.Lock()
+	defer folder.wLock.Unlock()
+	if folder.visited[schemaLocation] {
+		return false
+	}
+	folder.visited[schemaLocation] = true
+	return true
+}
+
 func (folder *Folder) schemaRef(file *InstanceFile) {
 	if file == nil {
 		return
@@ -114,6 +126,9 @@ func (folder *Folder) schemaRef(file *InstanceFile) {
 				go DiscoverGlobalSchema(hrefAttr.Value)
 				return
 			}
+			if !folder.visit(hrefAttr.Value) {
+				return
+			}
 			schemaFilePath := filepath.Join(folder.Dir, hrefAttr.Value)
 			discoveredSchema, err := ReadSchemaFile(schemaFilePath)
 			if err != nil {
@@ -173,6 +188,9 @@ func (folder *Folder) includeSchema(file *SchemaFile) {
 				go DiscoverGlobalSchema(schemaLocationAttr.Value)
 				return
 			}
+			if !folder.visit(schemaLocationAttr.Value) {
+				return
+			}
 			schemaFilePath := filepath.Join(folder.Dir, schemaLocationAttr.Value)
 			discoveredSchema, err := ReadSchemaFile(schemaFilePath)
 			if err != nil {
@@ -239,6 +257,9 @@ func (folder *Folder) importSchema(file *SchemaFile) {
 				go DiscoverGlobalSchema(schemaLocationAttr.Value)
 				return
 			}
+			if !folder.visit(schemaLocationAttr.Value) {
+				return
+			}
 			schemaFilePath := filepath.Join(folder.Dir, schemaLocationAttr.Value)
 			discoveredSchema, err := ReadSchemaFile(schemaFilePath)
 			if err != nil {
-- 
2.43.0


From f86240ad81adc47637056d33f2d008efa3927bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:19 +0000
Subject: [PATCH 30/51] fix: find the concepts of a namespace spread over
 several schemas

A namespace was tied to whichever of its schemas happened to be read
last, an included one as a rule, so concepts of the including schema were
not found and their facts were dropped.  The namespace of an address is
now that of the schema declaring it.
---
 pkg/hydratables/query.go    | 15 ++++++++++++++-
 pkg/serializables/folder.go | 20 +++++++++++---------
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/pkg/hydratables/query.go b/pkg/hydratables/query.go
index 4304545..107da29 100644
--- a/pkg/hydratables/query.go
+++ b/pkg/hydratables/query.go
@@ -2,6 +2,7 @@ package hydratables
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"ecksbee.com/telefacts/pkg/attr"
@@ -43,7 +44,7 @@ func (h *Hydratable) HashQuery(query string) (string, *Concept, error) {
 	}
 	for _, candidate := range concepts {
 		if fragment == candidate.ID {
-			return namespace, &candidate, nil
+			return candidate.XMLName.Space, &candidate, nil
 		}
 	}
 	return namespace, nil, fmt.Errorf("concept not found %s", query)
@@ -75,6 +76,18 @@ func (h *Hydratable) NameQuery(namespace string, localName string) (string, *Con
 			return schemaLoc + "#" + candidate.ID, &candidate, nil
 		}
 	}
+	fileNames := make([]string, 0, len(h.Schemas))
+	for fileName := range h.Schemas {
+		fileNames = append(fileNames, fileName)
+	}
+	sort.Strings(fileNames)
+	for _, fileName := range fileNames {
+		for _, candidate := range h.Schemas[fileName].Element {
+			if localName == candidate.XMLName.Local && namespace == candidate.XMLName.Space {
+				return fileName + "#" + candidate.ID, &candidate, nil
+			}
+		}
+	}
 	return "", nil, nil
 }
 
diff --git a/pkg/serializables/folder.go b/pkg/serializables/folder.go
index d5fcc16..5b020a1 100644
--- a/pkg/serializables/folder.go
+++ b/pkg/serializables/folder.go
@@ -102,6 +102,14 @@ func (folder *Folder) visit(schemaLocation string) bool {
 	return true
 }
 
+func (folder *Folder) scope(namespace string, schemaLocation string) {
+	folder.wLock.Lock()
+	defer folder.wLock.Unlock()
+	if prev, found := folder.Namespaces[namespace]; !found || schemaLocation < prev {
+		folder.Namespaces[namespace] = schemaLocation
+	}
+}
+
 func (folder *Folder) schemaRef(file *InstanceFile) {
 	if file == nil {
 		return
@@ -138,9 +146,7 @@ func (folder *Folder) schemaRef(file *InstanceFile) {
 			if targetNS == nil || targetNS.Value == "" {
 				return
 			}
-			folder.wLock.Lock()
-			folder.Namespaces[targetNS.Value] = hrefAttr.Value
-			folder.wLock.Unlock()
+			folder.scope(targetNS.Value, hrefAttr.Value)
 			var wwg sync.WaitGroup
 			wwg.Add(3)
 			go func() {
@@ -200,9 +206,7 @@ func (folder *Folder) includeSchema(file *SchemaFile) {
 			if targetNS == nil || targetNS.Value == "" {
 				return
 			}
-			folder.wLock.Lock()
-			folder.Namespaces[targetNS.Value] = schemaLocationAttr.Value
-			folder.wLock.Unlock()
+			folder.scope(targetNS.Value, schemaLocationAttr.Value)
 			var wwg sync.WaitGroup
 			wwg.Add(3)
 			go func() {
@@ -250,9 +254,7 @@ func (folder *Folder) importSchema(file *SchemaFile) {
 			if schemaLocationAttr == nil || schemaLocationAttr.Value == "" {
 				return
 			}
-			folder.wLock.Lock()
-			folder.Namespaces[namespaceAttr.Value] = schemaLocationAttr.Value
-			folder.wLock.Unlock()
+			folder.scope(namespaceAttr.Value, schemaLocationAttr.Value)
 			if attr.IsValidUrl(schemaLocationAttr.Value) {
 				go DiscoverGlobalSchema(schemaLocationAttr.Value)
 				return
-- 
2.43.0


From 11cf82bc1338819643036c41b81d9639cb46bc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:27 +0000
Subject: [PATCH 31/51] fix: report global files that cannot be read

A missing file was returned as empty content without an error.
---
 pkg/serializables/global.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pkg/serializables/global.go b/pkg/serializables/global.go
index 0402818..de1e98a 100644
--- a/pkg/serializables/global.go
+++ b/pkg/serializables/global.go
@@ -51,16 +51,18 @@ func DiscoverGlobalFile(urlStr string) ([]byte, error) {
 		return nil, err
 	}
 	var ret []byte
-	if file, err := os.Stat(dest); err == nil {
-		dirString, _ := filepath.Split(dest)
-		filename := file.Name()
-		globalFilePath := filepath.Join(dirString, filename)
-		ret, err = os.ReadFile(globalFilePath)
-		if err == nil {
-			return ret, nil
-		}
+	file, err := os.Stat(dest)
+	if err != nil {
+		return nil, err
+	}
+	dirString, _ := filepath.Split(dest)
+	filename := file.Name()
+	globalFilePath := filepath.Join(dirString, filename)
+	ret, err = os.ReadFile(globalFilePath)
+	if err != nil {
+		return nil, err
 	}
-	return nil, err
+	return ret, nil
 }
 
 func DiscoverGlobalSchema(urlStr string) (*SchemaFile, error) {
-- 
2.43.0


From a2b38acf89ecd37c4f5bcee79739383bd08ca67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:35 +0000
Subject: [PATCH 32/51] fix: keep references inside the folder and the taxonomy
 store

Relative references with parent directories could read any file, and an
address could map to a file outside its host's part of the store.
---
 pkg/serializables/folder.go     | 37 +++++++++++++++++++++++++++------
 pkg/serializables/global.go     |  6 +++++-
 pkg/serializables/underscore.go |  3 +++
 3 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/pkg/serializables/folder.go b/pkg/serializables/folder.go
index 5b020a1..7b927d7 100644
--- a/pkg/serializables/folder.go
+++ b/pkg/serializables/folder.go
@@ -53,7 +53,10 @@ func Discover(id string) (*Folder, error) {
 	ext := filepath.Ext(entryFileName)
 	switch ext {
 	case ".xhtml", ".htm":
-		htmFilePath := filepath.Join(workingDir, entryFileName)
+		htmFilePath, err := ret.localPath(entryFileName)
+		if err != nil {
+			return nil, err
+		}
 		data, err := os.ReadFile(htmFilePath)
 		if err != nil {
 			return nil, err
@@ -79,7 +82,10 @@ func Discover(id string) (*Folder, error) {
 		defer ret.wLock.Unlock()
 		ret.Instances[entryFileName+".xml"] = *instanceFile
 	case ".xbrl", ".xml":
-		xmlFilePath := filepath.Join(workingDir, entryFileName)
+		xmlFilePath, err := ret.localPath(entryFileName)
+		if err != nil {
+			return nil, err
+		}
 		instanceFile, err := ReadInstanceFile(xmlFilePath)
 		if err != nil {
 			return nil, err
@@ -92,6 +98,13 @@ func Discover(id string) (*Folder, error) {
 	return ret, nil
 }
 
+func (folder *Folder) localPath(href string) (string, error) {
+	if !filepath.IsLocal(filepath.Join(".", href)) {
+		return "", fmt.Errorf("%s is outside the folder", href)
+	}
+	return filepath.Join(folder.Dir, href), nil
+}
+
 func (folder *Folder) visit(schemaLocation string) bool {
 	folder.wLock.Lock()
 	defer folder.wLock.Unlock()
@@ -137,7 +150,10 @@ func (folder *Folder) schemaRef(file *InstanceFile) {
 			if !folder.visit(hrefAttr.Value) {
 				return
 			}
-			schemaFilePath := filepath.Join(folder.Dir, hrefAttr.Value)
+			schemaFilePath, err := folder.localPath(hrefAttr.Value)
+			if err != nil {
+				return
+			}
 			discoveredSchema, err := ReadSchemaFile(schemaFilePath)
 			if err != nil {
 				return
@@ -197,7 +213,10 @@ func (folder *Folder) includeSchema(file *SchemaFile) {
 			if !folder.visit(schemaLocationAttr.Value) {
 				return
 			}
-			schemaFilePath := filepath.Join(folder.Dir, schemaLocationAttr.Value)
+			schemaFilePath, err := folder.localPath(schemaLocationAttr.Value)
+			if err != nil {
+				return
+			}
 			discoveredSchema, err := ReadSchemaFile(schemaFilePath)
 			if err != nil {
 				return
@@ -262,7 +281,10 @@ func (folder *Folder) importSchema(file *SchemaFile) {
 			if !folder.visit(schemaLocationAttr.Value) {
 				return
 			}
-			schemaFilePath := filepath.Join(folder.Dir, schemaLocationAttr.Value)
+			schemaFilePath, err := folder.localPath(schemaLocationAttr.Value)
+			if err != nil {
+				return
+			}
 			discoveredSchema, err := ReadSchemaFile(schemaFilePath)
 			if err != nil {
 				return
@@ -333,7 +355,10 @@ func (folder *Folder) linkbaseRefSchema(file *SchemaFile) {
 						go DiscoverGlobalFile(hrefAttr.Value)
 						return
 					}
-					linkbaseFilePath := filepath.Join(folder.Dir, hrefAttr.Value)
+					linkbaseFilePath, err := folder.localPath(hrefAttr.Value)
+					if err != nil {
+						return
+					}
 					switch roleAttr.Value {
 					case attr.PresentationLinkbaseRef:
 						discoveredPre, err := ReadPresentationLinkbaseFile(linkbaseFilePath)
diff --git a/pkg/serializables/global.go b/pkg/serializables/global.go
index de1e98a..61489e1 100644
--- a/pkg/serializables/global.go
+++ b/pkg/serializables/global.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"net/url"
 	"os"
+	"path"
 	"path/filepath"
 	"strings"
 
@@ -37,8 +38,11 @@ func UrlToFilename(urlStr string) (string, error) {
 	if len(hostname) <= 0 {
 		return "", fmt.Errorf("empty hostname")
 	}
+	if hostname == "." || hostname == ".." || strings.ContainsAny(hostname, "/\\") {
+		return "", fmt.Errorf("invalid hostname")
+	}
 	dest = filepath.Join(dest, hostname)
-	var splits = strings.Split(urlPath.Path, "/")
+	var splits = strings.Split(path.Clean("/"+urlPath.Path), "/")
 	for _, split := range splits {
 		dest = filepath.Join(dest, split)
 	}
diff --git a/pkg/serializables/underscore.go b/pkg/serializables/underscore.go
index 86e0d8c..3194a9c 100644
--- a/pkg/serializables/underscore.go
+++ b/pkg/serializables/underscore.go
@@ -17,6 +17,9 @@ type Underscore struct {
 
 func GetEntryFileName(id string) (string, error) {
 	underscore := Underscore{}
+	if !filepath.IsLocal(id) {
+		return "", fmt.Errorf("invalid id %s", id)
+	}
 	b, err := os.ReadFile(path.Join(WorkingDirectoryPath, "folders", id, "_"))
 	if err != nil {
 		return "", err
-- 
2.43.0


From 6b533e1b0d15bf353df54d8fe2754f93d37f1c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:56 +0000
Subject: [PATCH 33/51] fix: accept names without a prefix

Slicing at the missing colon's position panicked.
---
 pkg/attr/name.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/attr/name.go b/pkg/attr/name.go
index e6c56b2..0f891b5 100644
--- a/pkg/attr/name.go
+++ b/pkg/attr/name.go
@@ -46,7 +46,7 @@ func (np *NameProvider) ProvideXmlName(prefixed string) (*xml.Name, error) {
 	if i < 0 {
 		return &xml.Name{
 			Space: "",
-			Local: prefixed[i:],
+			Local: prefixed,
 		}, nil
 	}
 	prefix := prefix(prefixed[:i])
-- 
2.43.0


From 77ea42f2440f2b4479abc56b62f2d8bbcb8143a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:06 +0000
Subject: [PATCH 34/51] fix: keep canonical prefixes distinct

A generated prefix was not remembered, so a later namespace could get it
too, and the twenty-seventh clash indexed before the alphabet.
---
 pkg/attr/name.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/attr/name.go b/pkg/attr/name.go
index 0f891b5..26c1de4 100644
--- a/pkg/attr/name.go
+++ b/pkg/attr/name.go
@@ -104,6 +104,7 @@ func processPrefixes(attrs []xmlquery.Attr) (map[prefix]space, map[prefix]prefix
 		t, currSpace := targetPrefix(attr, nameMap, prefixes)
 		nameMap[space(attr.Value)] = t
 		prefixes[o] = currSpace
+		prefixes[t] = currSpace
 		origin[o] = currSpace
 		target[o] = t
 	}
@@ -149,5 +150,5 @@ func toChar(i int) string {
 	if i < len(arr) {
 		return arr[i]
 	}
-	return arr[len(arr)-1] + toChar(i-len(arr)-1)
+	return arr[len(arr)-1] + toChar(i-len(arr))
 }
-- 
2.43.0


From 1d577613e383c01ad6f73fda160015745729c80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:15 +0000
Subject: [PATCH 35/51] fix: skip tagged facts without a name or context

The goroutine dereferenced the missing attribute and ended the process.
---
 pkg/hydratables/document.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/hydratables/document.go b/pkg/hydratables/document.go
index cbbdf56..96a73d6 100644
--- a/pkg/hydratables/document.go
+++ b/pkg/hydratables/document.go
@@ -34,6 +34,9 @@ func HydrateDocument(folder *serializables.Folder) (*Document, error) {
 			defer wg1.Done()
 			name := attr.FindXpathAttr(nonNumeric.Attr, "name")
 			contextRef := attr.FindXpathAttr(nonNumeric.Attr, "contextRef")
+			if name == nil || contextRef == nil {
+				return
+			}
 			xmlName, err := np.ProvideXmlName(name.Value)
 			lock1.Lock()
 			defer lock1.Unlock()
@@ -58,6 +61,9 @@ func HydrateDocument(folder *serializables.Folder) (*Document, error) {
 			defer wg2.Done()
 			name := attr.FindXpathAttr(nonFraction.Attr, "name")
 			contextRef := attr.FindXpathAttr(nonFraction.Attr, "contextRef")
+			if name == nil || contextRef == nil {
+				return
+			}
 			xmlName, err := np.ProvideXmlName(name.Value)
 			lock2.Lock()
 			defer lock2.Unlock()
-- 
2.43.0


From ceb0135eceec1c3b11754c1b6d64ead953c55590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:48 +0000
Subject: [PATCH 36/51] fix: give names of the default namespace the same
 canonical form

A prefixed name kept its colon while the same name given by namespace
had none.
---
 pkg/attr/name.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/attr/name.go b/pkg/attr/name.go
index 26c1de4..384ab1d 100644
--- a/pkg/attr/name.go
+++ b/pkg/attr/name.go
@@ -35,6 +35,9 @@ func (np *NameProvider) ProvideConceptName(prefixed string) string {
 	prefix := prefix(prefixed[:i])
 	if _, hit1 := np.originPrefixes[prefix]; hit1 {
 		if targetPrefix, hit2 := np.targetPrefixes[prefix]; hit2 {
+			if targetPrefix == "" {
+				return prefixed[i+1:]
+			}
 			return string(targetPrefix) + prefixed[i:]
 		}
 	}
-- 
2.43.0


From 2ede4d76a53e6ec0e952f01d99d2534a68f87872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:58 +0000
Subject: [PATCH 37/51] fix: escape the text of text blocks

Doubly escaped markup in a fact came out as live markup.
---
 pkg/renderables/textBlock.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/renderables/textBlock.go b/pkg/renderables/textBlock.go
index 5fac5fe..421bf34 100644
--- a/pkg/renderables/textBlock.go
+++ b/pkg/renderables/textBlock.go
@@ -110,7 +110,7 @@ func renderTextBlock(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFin
 		case html.TextToken:
 			data := strings.TrimSpace(token.Data)
 			if len(data) > 0 {
-				tokenized += data + " "
+				tokenized += gohtml.EscapeString(data) + " "
 			}
 		case html.EndTagToken:
 			switch token.Data {
-- 
2.43.0


From 0d585f54de51880713900c01456f246631bf8540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:08 +0000
Subject: [PATCH 38/51] fix: bound the column span of text block cells

One cell could ask for billions of cells and exhaust memory.
---
 pkg/renderables/textBlock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/renderables/textBlock.go b/pkg/renderables/textBlock.go
index 421bf34..89c8482 100644
--- a/pkg/renderables/textBlock.go
+++ b/pkg/renderables/textBlock.go
@@ -26,6 +26,10 @@ func colSpanHelper(attrs []html.Attribute, cb func(int)) {
 	if a != nil {
 		colspan, err := strconv.Atoi(a.Val)
 		if err == nil {
+			//https://html.spec.whatwg.org/#algorithms-for-interpreting-row-and-column-spans
+			if colspan > 1000 {
+				colspan = 1000
+			}
 			for i := 0; i < colspan-1; i++ {
 				cb(colspan)
 			}
-- 
2.43.0


From b363ae88f9bff052db18095c5b443cb95ab3fdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:17 +0000
Subject: [PATCH 39/51] fix: show the content of character data sections in
 text blocks

The section's opening was taken for a comment that swallowed the text up
to the first tag.
---
 pkg/renderables/textBlock.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/pkg/renderables/textBlock.go b/pkg/renderables/textBlock.go
index 89c8482..b7b49ea 100644
--- a/pkg/renderables/textBlock.go
+++ b/pkg/renderables/textBlock.go
@@ -46,6 +46,27 @@ func colSpan2Helper(stack []int, cb func(int)) {
 	}
 }
 
+func escapeCDATA(xmlInner string) string {
+	const start, end = "<![CDATA[", "]]>"
+	var ret strings.Builder
+	for {
+		i := strings.Index(xmlInner, start)
+		if i < 0 {
+			break
+		}
+		section := xmlInner[i+len(start):]
+		j := strings.Index(section, end)
+		if j < 0 {
+			break
+		}
+		ret.WriteString(xmlInner[:i])
+		ret.WriteString(gohtml.EscapeString(section[:j]))
+		xmlInner = section[j+len(end):]
+	}
+	ret.WriteString(xmlInner)
+	return ret.String()
+}
+
 func renderTextBlock(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFinder) *FactExpression {
 	_, concept, err := cf.HashQuery(fact.Href)
 	if err != nil {
@@ -58,7 +79,7 @@ func renderTextBlock(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFin
 	if !isTextBlock {
 		return nil
 	}
-	r := strings.NewReader(gohtml.UnescapeString(fact.XMLInner))
+	r := strings.NewReader(gohtml.UnescapeString(escapeCDATA(fact.XMLInner)))
 	tokenizer := html.NewTokenizer(r)
 	tokenized := ""
 	disableBr := 0
-- 
2.43.0


From 99b4a6d38cbc56d09a0751c70fed771ac71785c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:40 +0000
Subject: [PATCH 40/51] fix: declare JSON answers as JSON

The content type was set after the header had been written.  Inline
documents keep the type found from their content.
---
 internal/web/web.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/web/web.go b/internal/web/web.go
index 8271e47..c36ebd7 100644
--- a/internal/web/web.go
+++ b/internal/web/web.go
@@ -27,8 +27,8 @@ func Catalog() func(http.ResponseWriter, *http.Request) {
 			http.Error(w, "Error: "+err.Error(), http.StatusInternalServerError)
 			return
 		}
-		w.WriteHeader(http.StatusOK)
 		w.Header().Set("Content-Type", "application/json")
+		w.WriteHeader(http.StatusOK)
 		w.Write(data)
 	}
 }
@@ -56,8 +56,10 @@ func Renderable() func(http.ResponseWriter, *http.Request) {
 			http.Error(w, "Error: "+err.Error(), http.StatusInternalServerError)
 			return
 		}
+		if ext := filepath.Ext(hash); ext != ".xhtml" && ext != ".htm" {
+			w.Header().Set("Content-Type", "application/json")
+		}
 		w.WriteHeader(http.StatusOK)
-		w.Header().Set("Content-Type", "application/json")
 		w.Write(data)
 	}
 }
@@ -94,8 +96,8 @@ func Expressable() func(http.ResponseWriter, *http.Request) {
 			http.Error(w, "Error: "+err.Error(), http.StatusInternalServerError)
 			return
 		}
-		w.WriteHeader(http.StatusOK)
 		w.Header().Set("Content-Type", "application/json")
+		w.WriteHeader(http.StatusOK)
 		w.Write(data)
 	}
 }
-- 
2.43.0


From 1868d23d3b869b52c6b1dd8eb1e97434e5de3f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:49 +0000
Subject: [PATCH 41/51] fix: order siblings by their own arcs

---
 internal/graph/graph.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/internal/graph/graph.go b/internal/graph/graph.go
index d140e1b..519e517 100644
--- a/internal/graph/graph.go
+++ b/internal/graph/graph.go
@@ -5,5 +5,23 @@ import (
 )
 
 func Tree(arcs []myarcs.Arc, arcrole string) *myarcs.RArc {
-	return myarcs.NewRArc(arcs, arcrole)
+	ret := myarcs.NewRArc(arcs, arcrole)
+	orders := make(map[[2]string]float64)
+	for _, arc := range arcs {
+		if arc.Arcrole == arcrole {
+			orders[[2]string{arc.From, arc.To}] = arc.Order
+		}
+	}
+	for _, root := range ret.Children {
+		setOrders(root, orders)
+	}
+	return ret
+}
+
+// a node that was found as a parent first does not have the order of its own arc yet
+func setOrders(node *myarcs.RArc, orders map[[2]string]float64) {
+	for _, child := range node.Children {
+		child.Order = orders[[2]string{node.Locator, child.Locator}]
+		setOrders(child, orders)
+	}
 }
-- 
2.43.0


From 3e39509e9f21b0420292552782634343614a7a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:54 +0000
Subject: [PATCH 42/51] fix: show the reported digits of numbers at every
 precision

---
 pkg/renderables/fact.go | 89 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 75 insertions(+), 14 deletions(-)

diff --git a/pkg/renderables/fact.go b/pkg/renderables/fact.go
index bd185c4..be097c1 100644
--- a/pkg/renderables/fact.go
+++ b/pkg/renderables/fact.go
@@ -2,7 +2,8 @@ package renderables
 
 import (
 	"fmt"
-	"math/big"
+	"regexp"
+	"strconv"
 	"strings"
 
 	"ecksbee.com/telefacts/pkg/attr"
@@ -63,23 +64,83 @@ func SigFigs(value string, precision hydratables.Precision, concept *hydratables
 }
 
 func renderPercent(value string, precision hydratables.Precision, g rune) (*FactExpression, error) {
-	f, _, err := big.ParseFloat(value, 10, digits.PREC_BITS, big.ToZero)
-	if err != nil {
-		return nil, fmt.Errorf("failed to convert fact to numeric expression")
-	}
-	percent := f.Mul(f, big.NewFloat(100).SetPrec(digits.PREC_BITS)).Text('f', -1)
-	return renderNumeric(percent, precision, g)
+	return renderDecimal(value, 2, precision, g)
 }
 
 func renderNumeric(value string, precision hydratables.Precision, g rune) (*FactExpression, error) {
+	return renderDecimal(value, 0, precision, g)
+}
+
+var decimalNumber = regexp.MustCompile(`^([+-]?)([0-9]*)(?:\.([0-9]*))?(?:[eE]([+-]?[0-9]{1,3}))?$`)
+
+// renderDecimal shows the given number, with its decimal point moved to the right by shift
+// digits. The core ends with the last digit that is significant at the given precision.
+// The numerals are copied and never calculated with, so that all of them are kept.
+func renderDecimal(value string, shift int, precision hydratables.Precision, g rune) (*FactExpression, error) {
 	p := digits.Precision(int(precision))
-	digit, err := digits.New(p, value, g, digits.PreserveUpToHundredth)
-	if err != nil {
+	if p != digits.Exact && !(p > digits.Trillions && p < digits.Trillionth) {
+		return nil, fmt.Errorf("precision out of bounds")
+	}
+	parts := decimalNumber.FindStringSubmatch(value)
+	if parts == nil || parts[2]+parts[3] == "" {
 		return nil, fmt.Errorf("failed to convert fact to numeric expression")
 	}
-	return &FactExpression{
-		Head: digit.Head(),
-		Core: digit.Core(),
-		Tail: digit.Tail(),
-	}, nil
+	exponent, _ := strconv.Atoi(parts[4])
+	integer, fraction := movePoint(parts[2], parts[3], shift+exponent)
+	isWhole := fraction == ""
+	if fractionLength := max(int(digits.PreserveUpToHundredth), int(p)); p != digits.Exact && len(fraction) > fractionLength {
+		fraction = fraction[:fractionLength]
+	}
+	for len(fraction) < int(digits.PreserveUpToHundredth) && (isWhole || p != digits.Exact) || len(fraction) < int(p) {
+		fraction += "0"
+	}
+	var text strings.Builder
+	for i, numeral := range integer {
+		if i > 0 && (len(integer)-i)%3 == 0 {
+			text.WriteRune(g)
+		}
+		text.WriteRune(numeral)
+	}
+	end := text.Len()
+	text.WriteString("." + fraction)
+	switch {
+	case p == digits.Exact && isWhole:
+		end++
+	case p == digits.Exact:
+		end = text.Len()
+	case p > digits.Oneth:
+		end += 1 + int(p)
+	case p < digits.Oneth && len(integer) > -int(p):
+		end = len(integer) + int(p)
+		end += (len(integer)-1)/3 - -int(p)/3
+	}
+	ret := FactExpression{
+		Core: text.String()[:end],
+		Tail: text.String()[end:],
+	}
+	if parts[1] == "-" {
+		ret.Head = "("
+		ret.Tail += ")"
+	}
+	return &ret, nil
+}
+
+func movePoint(integer string, fraction string, shift int) (string, string) {
+	for ; shift > 0; shift-- {
+		if fraction == "" {
+			fraction = "0"
+		}
+		integer, fraction = integer+fraction[:1], fraction[1:]
+	}
+	for ; shift < 0; shift++ {
+		if integer == "" {
+			integer = "0"
+		}
+		integer, fraction = integer[:len(integer)-1], integer[len(integer)-1:]+fraction
+	}
+	integer = strings.TrimLeft(integer, "0")
+	if integer == "" {
+		integer = "0"
+	}
+	return integer, fraction
 }
-- 
2.43.0


From f51cd36b90a72009223de13d842a1113f4f56a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:02:13 +0000
Subject: [PATCH 43/51] fix: count the months of periods that do not follow the
 calendar

---
 pkg/renderables/formatPeriod.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/pkg/renderables/formatPeriod.go b/pkg/renderables/formatPeriod.go
index cfe0e5b..90ed1be 100644
--- a/pkg/renderables/formatPeriod.go
+++ b/pkg/renderables/formatPeriod.go
@@ -1,6 +1,7 @@
 package renderables
 
 import (
+	"math"
 	"strings"
 	"time"
 )
@@ -75,16 +76,7 @@ func monthCount(start time.Time, end time.Time) int {
 	if days < 30 {
 		return 0
 	}
-	//https://flaviocopes.com/golang-count-months-since-date/
-	months := 1
-	month := start.Month()
-	for start.Before(end) {
-		start = start.Add(time.Hour * 24)
-		nextMonth := start.Month()
-		if nextMonth != month {
-			months++
-		}
-		month = nextMonth
-	}
-	return months
+	//fiscal periods need not begin and end with a calendar month
+	const averageMonth = 365.25 / 12
+	return int(math.Round(days / averageMonth))
 }
-- 
2.43.0


From 597a34bae1789546e46a2a301f2c83c00ace096a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:26 +0000
Subject: [PATCH 44/51] fix: show calculation weights in full

---
 pkg/renderables/calculationGrid.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/renderables/calculationGrid.go b/pkg/renderables/calculationGrid.go
index f6309b3..62e4bf8 100644
--- a/pkg/renderables/calculationGrid.go
+++ b/pkg/renderables/calculationGrid.go
@@ -4,6 +4,8 @@ import (
 	"fmt"
 	"math"
 	"sort"
+	"strconv"
+	"strings"
 
 	"ecksbee.com/telefacts/pkg/attr"
 	"ecksbee.com/telefacts/pkg/hydratables"
@@ -102,7 +104,10 @@ func getSummationItems(schemedEntity string, linkroleURI string, h *hydratables.
 					for _, cstruct := range slice {
 						_, isSummationItem := cMap[cstruct.Href]
 						sign := fmt.Sprintf("%c", cstruct.Sign)
-						scale := fmt.Sprintf("%.1f", cstruct.Scale)
+						scale := strconv.FormatFloat(cstruct.Scale, 'f', -1, 64)
+						if !strings.Contains(scale, ".") {
+							scale += ".0"
+						}
 						cLabelPack := GetLabel(h, cstruct.Href)
 						_, concept, err := h.HashQuery(cstruct.Href)
 						if err != nil {
-- 
2.43.0


From ce35bcdc0e0d5982dc0e059d3a6a64eae0bdb59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:30 +0000
Subject: [PATCH 45/51] fix: announce the languages of typed domain labels

---
 pkg/renderables/typedMember.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/renderables/typedMember.go b/pkg/renderables/typedMember.go
index 6c7be84..fed1e42 100644
--- a/pkg/renderables/typedMember.go
+++ b/pkg/renderables/typedMember.go
@@ -29,6 +29,7 @@ func getTypedMember(typedMember hydratables.TypedMember, dimension Dimension,
 	}
 	for _, typedDomain := range sortedKeys(typedMember.TypedMembersMap) {
 		typedDomainLabel := GetLabel(h, typedDomain)
+		labelPacks = append(labelPacks, typedDomainLabel)
 		ret = append(ret, RelevantMember{
 			Dimension: dimension,
 			TypedDomain: &TypedDomain{
-- 
2.43.0


From dd1b281549271e9b979fb2493790f4750b9f19bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:17 +0000
Subject: [PATCH 46/51] fix: show the facts of every line-item group in all
 languages of the network

---
 pkg/renderables/effectiveDomainGrid.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/renderables/effectiveDomainGrid.go b/pkg/renderables/effectiveDomainGrid.go
index 113cade..c33fe50 100644
--- a/pkg/renderables/effectiveDomainGrid.go
+++ b/pkg/renderables/effectiveDomainGrid.go
@@ -63,6 +63,7 @@ func getRootDomains(schemedEntity string, linkroleURI string, h *hydratables.Hyd
 	labelRoles := []LabelRole{}
 	langs := []Lang{}
 	labelPacks := make([]LabelPack, 0, 100)
+	rootContexts := [][]relevantContext{}
 	for _, key := range sortedKeys(h.DefinitionLinkbases) {
 		definition := h.DefinitionLinkbases[key]
 		var definitionLinks []hydratables.DefinitionLink
@@ -148,12 +149,15 @@ func getRootDomains(schemedEntity string, linkroleURI string, h *hydratables.Hyd
 						labelRoles = append(labelRoles, dLabelRoles...)
 						langs = append(langs, dLangs...)
 					}
-					rootDomain = injectFactualQuadrant(rootDomain, relevantContexts, factFinder, conceptFinder, measurementFinder, langs)
 					ret = append(ret, rootDomain)
+					rootContexts = append(rootContexts, relevantContexts)
 				}
 			}
 		}
 	}
+	for i := range ret {
+		ret[i] = injectFactualQuadrant(ret[i], rootContexts[i], factFinder, conceptFinder, measurementFinder, langs)
+	}
 	return ret, labelRoles, langs
 }
 
-- 
2.43.0


From 570450bc2186f644265436da5bd4d04cf74fd4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:21 +0000
Subject: [PATCH 47/51] fix: build text blocks without copying them for every
 token

---
 pkg/renderables/textBlock.go | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/pkg/renderables/textBlock.go b/pkg/renderables/textBlock.go
index b7b49ea..ffb68af 100644
--- a/pkg/renderables/textBlock.go
+++ b/pkg/renderables/textBlock.go
@@ -81,7 +81,7 @@ func renderTextBlock(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFin
 	}
 	r := strings.NewReader(gohtml.UnescapeString(escapeCDATA(fact.XMLInner)))
 	tokenizer := html.NewTokenizer(r)
-	tokenized := ""
+	var tokenized strings.Builder
 	disableBr := 0
 	thcolspans := make([]int, 0)
 	tdcolspans := make([]int, 0)
@@ -98,20 +98,20 @@ func renderTextBlock(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFin
 			switch token.Data {
 			case "table":
 				disableBr++
-				tokenized += "<table>"
+				tokenized.WriteString("<table>")
 			case "tr":
-				tokenized += "<tr>"
+				tokenized.WriteString("<tr>")
 			case "th":
-				tokenized += "<th>"
+				tokenized.WriteString("<th>")
 				colSpanHelper(token.Attr, func(colspan int) {
 					thcolspans = append(thcolspans, colspan)
-					tokenized += "<th>"
+					tokenized.WriteString("<th>")
 				})
 			case "td":
-				tokenized += "<td>"
+				tokenized.WriteString("<td>")
 				colSpanHelper(token.Attr, func(colspan int) {
 					tdcolspans = append(tdcolspans, colspan)
-					tokenized += "<td>"
+					tokenized.WriteString("<td>")
 				})
 			}
 			if disableBr <= 0 {
@@ -127,7 +127,7 @@ func renderTextBlock(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFin
 				}
 				for _, elem := range blockElems {
 					if elem == token.Data {
-						tokenized += "<br /><br />"
+						tokenized.WriteString("<br /><br />")
 						break
 					}
 				}
@@ -135,32 +135,32 @@ func renderTextBlock(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFin
 		case html.TextToken:
 			data := strings.TrimSpace(token.Data)
 			if len(data) > 0 {
-				tokenized += gohtml.EscapeString(data) + " "
+				tokenized.WriteString(gohtml.EscapeString(data) + " ")
 			}
 		case html.EndTagToken:
 			switch token.Data {
 			case "table":
 				disableBr--
-				tokenized += "</table>"
+				tokenized.WriteString("</table>")
 			case "tr":
-				tokenized += "</tr>"
+				tokenized.WriteString("</tr>")
 			case "th":
-				tokenized += "</th>"
+				tokenized.WriteString("</th>")
 				colSpan2Helper(thcolspans, func(colspan int) {
 					thcolspans = thcolspans[:len(thcolspans)-1]
-					tokenized += "</th>"
+					tokenized.WriteString("</th>")
 				})
 			case "td":
-				tokenized += "</td>"
+				tokenized.WriteString("</td>")
 				colSpan2Helper(tdcolspans, func(colspan int) {
 					tdcolspans = tdcolspans[:len(tdcolspans)-1]
-					tokenized += "</td>"
+					tokenized.WriteString("</td>")
 				})
 			}
 		}
 	}
 
 	return &FactExpression{
-		InnerHtml: tokenized,
+		InnerHtml: tokenized.String(),
 	}
 }
-- 
2.43.0


From 5abdac92c021b9dac1122f70ec2431971fbd9c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:46 +0000
Subject: [PATCH 48/51] fix: keep the whole text of a typed member

---
 pkg/hydratables/instance.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/hydratables/instance.go b/pkg/hydratables/instance.go
index 2ee4f26..e3d552c 100644
--- a/pkg/hydratables/instance.go
+++ b/pkg/hydratables/instance.go
@@ -347,6 +347,7 @@ func hydrateTypedMembers(dimensionHref string, typedMember string, instanceFile
 	if err != nil {
 		return nil, nil
 	}
+	text := ""
 	for {
 		token, err := d.Token()
 		if err == io.EOF {
@@ -376,10 +377,12 @@ func hydrateTypedMembers(dimensionHref string, typedMember string, instanceFile
 				})
 				prev = curr
 				prevHref = currHref
+				text = ""
 			}
 		case xml.EndElement:
 			endElem, ok := token.(xml.EndElement)
 			if ok {
+				text = ""
 				popped, ok := stack.Pop()
 				if !ok {
 					return nil, nil
@@ -400,7 +403,9 @@ func hydrateTypedMembers(dimensionHref string, typedMember string, instanceFile
 		case xml.CharData:
 			charData, ok := token.(xml.CharData)
 			if ok {
-				str := strings.TrimSpace(string(charData))
+				// comments and CDATA sections split the text of an element
+				text += string(charData)
+				str := strings.TrimSpace(text)
 				if str == "" {
 					continue
 				}
-- 
2.43.0


From f40bf2c8d421174801d3dea38d0f233295cf489f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:26:59 +0000
Subject: [PATCH 49/51] fix: take an arc without an order as being the first

---
 pkg/hydratables/calculationLinkbase.go  | 13 +++++++------
 pkg/hydratables/definitionLinkbase.go   | 13 +++++++------
 pkg/hydratables/presentationLinkbase.go | 13 +++++++------
 3 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/pkg/hydratables/calculationLinkbase.go b/pkg/hydratables/calculationLinkbase.go
index 540afed..5ee81ef 100644
--- a/pkg/hydratables/calculationLinkbase.go
+++ b/pkg/hydratables/calculationLinkbase.go
@@ -109,9 +109,6 @@ func hydrateCalculationLink(linkbaseFile *serializables.CalculationLinkbaseFile)
 				continue
 			}
 			orderAttr := attr.FindAttr(arc.XMLAttrs, "order")
-			if orderAttr == nil || orderAttr.Value == "" {
-				continue
-			}
 			arcroleAttr := attr.FindAttr(arc.XMLAttrs, "arcrole")
 			if arcroleAttr == nil || arcroleAttr.Name.Space != attr.XLINK || arcroleAttr.Value == "" {
 				continue
@@ -128,9 +125,13 @@ func hydrateCalculationLink(linkbaseFile *serializables.CalculationLinkbaseFile)
 			if weightAttr == nil || weightAttr.Value == "" {
 				continue
 			}
-			order, err := strconv.ParseFloat(orderAttr.Value, 64)
-			if err != nil {
-				order = math.MaxFloat64
+			order := 1.0
+			if orderAttr != nil && orderAttr.Value != "" {
+				parsed, err := strconv.ParseFloat(orderAttr.Value, 64)
+				if err != nil {
+					parsed = math.MaxFloat64
+				}
+				order = parsed
 			}
 			weight, err := strconv.ParseFloat(weightAttr.Value, 64)
 			if err != nil {
diff --git a/pkg/hydratables/definitionLinkbase.go b/pkg/hydratables/definitionLinkbase.go
index 27b1b76..62de41e 100644
--- a/pkg/hydratables/definitionLinkbase.go
+++ b/pkg/hydratables/definitionLinkbase.go
@@ -112,9 +112,6 @@ func hydrateDefinitionLink(linkbaseFile *serializables.DefinitionLinkbaseFile) [
 				continue
 			}
 			orderAttr := attr.FindAttr(arc.XMLAttrs, "order")
-			if orderAttr == nil || orderAttr.Value == "" {
-				continue
-			}
 			arcroleAttr := attr.FindAttr(arc.XMLAttrs, "arcrole")
 			if arcroleAttr == nil || arcroleAttr.Name.Space != attr.XLINK || arcroleAttr.Value == "" {
 				continue
@@ -128,9 +125,13 @@ func hydrateDefinitionLink(linkbaseFile *serializables.DefinitionLinkbaseFile) [
 				continue
 			}
 			newArc.Arcrole = arcroleAttr.Value
-			order, err := strconv.ParseFloat(orderAttr.Value, 64)
-			if err != nil {
-				order = math.MaxFloat64
+			order := 1.0
+			if orderAttr != nil && orderAttr.Value != "" {
+				parsed, err := strconv.ParseFloat(orderAttr.Value, 64)
+				if err != nil {
+					parsed = math.MaxFloat64
+				}
+				order = parsed
 			}
 			newArc.Order = order
 			newArc.From = fromAttr.Value
diff --git a/pkg/hydratables/presentationLinkbase.go b/pkg/hydratables/presentationLinkbase.go
index d9914b4..5d1e6bf 100644
--- a/pkg/hydratables/presentationLinkbase.go
+++ b/pkg/hydratables/presentationLinkbase.go
@@ -109,9 +109,6 @@ func hydratePresentationLink(linkbaseFile *serializables.PresentationLinkbaseFil
 				continue
 			}
 			orderAttr := attr.FindAttr(arc.XMLAttrs, "order")
-			if orderAttr == nil || orderAttr.Value == "" {
-				continue
-			}
 			arcroleAttr := attr.FindAttr(arc.XMLAttrs, "arcrole")
 			if arcroleAttr == nil || arcroleAttr.Name.Space != attr.XLINK || arcroleAttr.Value == "" {
 				continue
@@ -125,9 +122,13 @@ func hydratePresentationLink(linkbaseFile *serializables.PresentationLinkbaseFil
 				continue
 			}
 			newArc.Arcrole = arcroleAttr.Value
-			order, err := strconv.ParseFloat(orderAttr.Value, 64)
-			if err != nil {
-				order = math.MaxFloat64
+			order := 1.0
+			if orderAttr != nil && orderAttr.Value != "" {
+				parsed, err := strconv.ParseFloat(orderAttr.Value, 64)
+				if err != nil {
+					parsed = math.MaxFloat64
+				}
+				order = parsed
 			}
 			newArc.Order = order
 			preferredLabelAttr := attr.FindAttr(arc.XMLAttrs, "preferredLabel")
-- 
2.43.0


From 951ed6f8f04068a826a195c642b5842fa9959ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:36:34 +0000
Subject: [PATCH 50/51] fix: list members that can be reached in several ways
 once instead of not at all

---
 pkg/renderables/effectiveDomainGrid.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pkg/renderables/effectiveDomainGrid.go b/pkg/renderables/effectiveDomainGrid.go
index c33fe50..9436612 100644
--- a/pkg/renderables/effectiveDomainGrid.go
+++ b/pkg/renderables/effectiveDomainGrid.go
@@ -314,7 +314,7 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 					for _, defaultMemberNode := range dimensionDefaultNode.Children {
 						defaultMemberHref := mapDLocatorToHref(defaultMemberNode.Locator)
 						if defaultMembersMap[defaultMemberHref] {
-							return []EffectiveMember{}, []LabelPack{}
+							continue
 						}
 						defaultMembersMap[defaultMemberHref] = true
 						defMemLabel := GetLabel(h, defaultMemberHref)
@@ -342,7 +342,7 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 					for _, defaultMemberNode := range dimensionDefaultNode.Children {
 						defaultMemberHref := mapDLocatorToHref(defaultMemberNode.Locator)
 						if excludedDefaultMembersMap[defaultMemberHref] {
-							return []EffectiveMember{}, []LabelPack{}
+							continue
 						}
 						excludedDefaultMembersMap[defaultMemberHref] = true
 						defMemLabel := GetLabel(h, defaultMemberHref)
@@ -366,8 +366,6 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 		memberHref := mapDLocatorToHref(node.Locator)
 		if isInclusive {
 			if membersMap[memberHref] {
-				ret = []EffectiveMember{}
-				labelPacks = []LabelPack{}
 				return
 			}
 			membersMap[memberHref] = true
@@ -380,8 +378,6 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 			})
 		} else {
 			if excludedMembersMap[memberHref] {
-				ret = []EffectiveMember{}
-				labelPacks = []LabelPack{}
 				return
 			}
 			excludedMembersMap[memberHref] = true
-- 
2.43.0


From db7f3586de5f090ce36c061b1118e22e541b8a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:44:58 +0000
Subject: [PATCH 51/51] fix: list the members of a domain that is part of
 another dimension's domain

The members of a domain were looked up below the first place where the
domain is found in the network. When the domain is itself a member of
another domain its members are attached elsewhere and were left out.
---
 pkg/renderables/effectiveDomainGrid.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/pkg/renderables/effectiveDomainGrid.go b/pkg/renderables/effectiveDomainGrid.go
index 9436612..cb9af21 100644
--- a/pkg/renderables/effectiveDomainGrid.go
+++ b/pkg/renderables/effectiveDomainGrid.go
@@ -359,6 +359,8 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 		}
 	}
 
+	domainMembers := make(map[string][]*myarcs.RArc)
+	collectDomainMembers(explicitDomainNetwork, domainMembers)
 	membersMap := make(map[string]bool)
 	excludedMembersMap := make(map[string]bool)
 	var traverseExplicitDomainNetwork func(*myarcs.RArc, bool)
@@ -389,10 +391,7 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 				IsStrikethrough: true,
 			})
 		}
-		if len(node.Children) <= 0 {
-			return
-		}
-		for _, child := range node.Children {
+		for _, child := range domainMembers[node.Locator] {
 			traverseExplicitDomainNetwork(child, isInclusive)
 		}
 	}
@@ -409,7 +408,7 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 							continue
 						}
 						for _, domainNode := range dimensionDomainNode.Children {
-							traverseExplicitDomainNetwork(findDomain(explicitDomainNetwork, domainNode), true)
+							traverseExplicitDomainNetwork(domainNode, true)
 						}
 					}
 				}
@@ -429,7 +428,7 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 							continue
 						}
 						for _, domainNode := range dimensionDomainNode.Children {
-							traverseExplicitDomainNetwork(findDomain(explicitDomainNetwork, domainNode), false)
+							traverseExplicitDomainNetwork(domainNode, false)
 						}
 					}
 				}
@@ -453,11 +452,10 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 	return ret, labelPacks
 }
 
-func findDomain(explicitDomainNetwork *myarcs.RArc, domainNode *myarcs.RArc) *myarcs.RArc {
-	for _, node := range explicitDomainNetwork.Children {
-		if node.Locator == domainNode.Locator {
-			return node
-		}
+// the members below a locator may be spread over all the places where it is found
+func collectDomainMembers(network *myarcs.RArc, domainMembers map[string][]*myarcs.RArc) {
+	for _, node := range network.Children {
+		domainMembers[node.Locator] = append(domainMembers[node.Locator], node.Children...)
+		collectDomainMembers(node, domainMembers)
 	}
-	return domainNode
 }
-- 
2.43.0

