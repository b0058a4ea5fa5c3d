From 63a0fd6bf7bad4f6e1c25087a66b2323d943c0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 01/69] fix: reject moves past the end of a list instead of
 corrupting it

---
 ecore/basicelist.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ecore/basicelist.go b/ecore/basicelist.go
index 7874fec..bfc9961 100644
--- a/ecore/basicelist.go
+++ b/ecore/basicelist.go
@@ -9,6 +9,8 @@
 
 package ecore
 
+import "strconv"
+
 type listCallBacks interface {
 	DidAdd(index int, elem any)
 
@@ -105,6 +107,9 @@ func (list *BasicEList) doInsertAll(index int, collection Collection) bool {
 }
 
 func (list *BasicEList) doMove(oldIndex, newIndex int) any {
+	if size := len(list.data); newIndex < 0 || newIndex >= size {
+		panic("Index out of bounds: newIndex=" + strconv.Itoa(newIndex) + " size=" + strconv.Itoa(size))
+	}
 	object := list.data[oldIndex]
 	if oldIndex != newIndex {
 		if newIndex < oldIndex {
-- 
2.43.0


From df3e8907cd6060342f199d97fb46bad74c3c1e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:27 +0000
Subject: [PATCH 02/69] fix: adding a collection to a unique list could
 duplicate elements already in it

---
 ecore/abstractelist.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ecore/abstractelist.go b/ecore/abstractelist.go
index 61a12d3..79e8558 100644
--- a/ecore/abstractelist.go
+++ b/ecore/abstractelist.go
@@ -61,8 +61,7 @@ func (list *AbstractEList) getNonDuplicates(collection Collection) Collection {
 			hashSet.Remove(it.Next())
 		}
 	} else {
-		for it := hashSet.Iterator(); it.Next(); {
-			v := it.Value()
+		for _, v := range hashSet.Values() {
 			if collection.Contains(v) {
 				hashSet.Remove(v)
 			}
-- 
2.43.0


From 2bd2e11e78d2401174bce81ccfc2fc5c9c1b52df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 03/69] fix: adding a list to itself left its store and
 notifications inconsistent

---
 ecore/abstractelist.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ecore/abstractelist.go b/ecore/abstractelist.go
index 79e8558..8f89632 100644
--- a/ecore/abstractelist.go
+++ b/ecore/abstractelist.go
@@ -74,6 +74,14 @@ func (list *AbstractEList) getNonDuplicates(collection Collection) Collection {
 	return NewImmutableEList(array)
 }
 
+// a list added to itself must not change while it is being added
+func (list *AbstractEList) getSnapshotIfSelf(collection Collection) Collection {
+	if any(collection) == list.interfaces {
+		return NewImmutableEList(append([]any{}, collection.ToArray()...))
+	}
+	return collection
+}
+
 func (list *AbstractEList) Add(elem any) bool {
 	l := list.asAbstractEList()
 	if list.isUnique && l.Contains(elem) {
@@ -89,6 +97,8 @@ func (list *AbstractEList) AddAll(collection Collection) bool {
 		if collection.Size() == 0 {
 			return false
 		}
+	} else {
+		collection = list.getSnapshotIfSelf(collection)
 	}
 	list.asAbstractEList().doAddAll(collection)
 	return true
@@ -116,6 +126,8 @@ func (list *AbstractEList) InsertAll(index int, collection Collection) bool {
 		if collection.Size() == 0 {
 			return false
 		}
+	} else {
+		collection = list.getSnapshotIfSelf(collection)
 	}
 	l.doInsertAll(index, collection)
 	return true
-- 
2.43.0


From a1227aa7c063c4ba1d10e6dcb1749a44f515e1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:36 +0000
Subject: [PATCH 04/69] fix: setting or unsetting a many-valued feature
 reflectively left inverses and containers behind

---
 ecore/abstracteobject.go        | 26 +++++++++++++++++++++++++-
 ecore/dynamiceobject_impl.go    |  2 +-
 ecore/estoreeobject_impl.go     |  2 +-
 ecore/reflectiveeobject_impl.go |  2 +-
 4 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index d70dbfa..803590b 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -417,6 +417,15 @@ func (o *AbstractEObject) ESetFromID(featureID int, newValue any) {
 }
 
 func (o *AbstractEObject) eDynamicPropertiesSet(properties EDynamicProperties, dynamicFeature EStructuralFeature, dynamicFeatureID int, newValue any) {
+	if newList, isList := newValue.(EList); isList && dynamicFeature.IsMany() {
+		// list : replace content so that inverses are kept and notifications are sent
+		if list, isList := o.eDynamicPropertiesGet(properties, dynamicFeature, dynamicFeatureID, false).(EList); isList {
+			elements := NewImmutableEList(append([]any{}, newList.ToArray()...))
+			list.Clear()
+			list.AddAll(elements)
+			return
+		}
+	}
 	if IsContainer(dynamicFeature) {
 		// container
 		objInternal := o.AsEObjectInternal()
@@ -536,6 +545,14 @@ func (o *AbstractEObject) eDynamicPropertiesIsSet(properties EDynamicProperties,
 	}
 }
 
+// a property which is a list of the object is set when the list has elements
+func isSetProperty(value any) bool {
+	if list, isList := value.(ENotifyingList); isList {
+		return !list.Empty()
+	}
+	return value != nil
+}
+
 // EUnset ...
 func (o *AbstractEObject) EUnset(feature EStructuralFeature) {
 	featureID := o.AsEObjectInternal().EFeatureID(feature)
@@ -580,7 +597,10 @@ func (o *AbstractEObject) eDynamicPropertiesUnset(properties EDynamicProperties,
 	} else if IsBidirectional(dynamicFeature) || IsContains(dynamicFeature) {
 		// inverse - opposite
 		oldValue := properties.EDynamicGet(dynamicFeatureID)
-		if oldValue != nil {
+		if oldList, isList := oldValue.(EList); isList && dynamicFeature.IsMany() {
+			// list : remove content so that inverses are kept
+			oldList.Clear()
+		} else if oldValue != nil {
 			var notifications ENotificationChain
 			oldObject, _ := oldValue.(EObject)
 
@@ -621,6 +641,10 @@ func (o *AbstractEObject) eDynamicPropertiesUnset(properties EDynamicProperties,
 		}
 	} else {
 		oldValue := properties.EDynamicGet(dynamicFeatureID)
+		if oldList, isList := oldValue.(EList); isList && dynamicFeature.IsMany() {
+			oldList.Clear()
+			return
+		}
 		properties.EDynamicUnset(dynamicFeatureID)
 		if o.ENotificationRequired() {
 			o.ENotify(NewNotificationByFeature(o.AsEObject(), UNSET, dynamicFeature, oldValue, nil, NO_INDEX))
diff --git a/ecore/dynamiceobject_impl.go b/ecore/dynamiceobject_impl.go
index bbae8dd..ca7f6ad 100644
--- a/ecore/dynamiceobject_impl.go
+++ b/ecore/dynamiceobject_impl.go
@@ -70,7 +70,7 @@ func (o *DynamicEObjectImpl) EDynamicUnset(dynamicFeatureID int) {
 }
 
 func (o *DynamicEObjectImpl) EDynamicIsSet(dynamicFeatureID int) bool {
-	return o.properties[dynamicFeatureID] != nil
+	return isSetProperty(o.properties[dynamicFeatureID])
 }
 
 func (o *DynamicEObjectImpl) EFeatureID(feature EStructuralFeature) int {
diff --git a/ecore/estoreeobject_impl.go b/ecore/estoreeobject_impl.go
index aef45e9..14a7f8e 100644
--- a/ecore/estoreeobject_impl.go
+++ b/ecore/estoreeobject_impl.go
@@ -181,7 +181,7 @@ func (o *EStoreEObjectImpl) EDynamicIsSet(dynamicFeatureID int) bool {
 	defer o.mutex.Unlock()
 
 	if o.properties != nil && o.properties[dynamicFeatureID] != nil {
-		return true
+		return isSetProperty(o.properties[dynamicFeatureID])
 	}
 	if store := o.AsEStoreEObject().GetEStore(); store != nil {
 		eFeature := o.eDynamicFeature(dynamicFeatureID)
diff --git a/ecore/reflectiveeobject_impl.go b/ecore/reflectiveeobject_impl.go
index 6e0a256..93c4e56 100644
--- a/ecore/reflectiveeobject_impl.go
+++ b/ecore/reflectiveeobject_impl.go
@@ -57,7 +57,7 @@ func (o *ReflectiveEObjectImpl) EDynamicUnset(dynamicFeatureID int) {
 }
 
 func (o *ReflectiveEObjectImpl) EDynamicIsSet(dynamicFeatureID int) bool {
-	return o.getProperties()[dynamicFeatureID] != nil
+	return isSetProperty(o.getProperties()[dynamicFeatureID])
 }
 
 func (o *ReflectiveEObjectImpl) getProperties() []any {
-- 
2.43.0


From 5f88024722002c7aff8ce3023e00b4c4175d536a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:10 +0000
Subject: [PATCH 05/69] fix: features and operations inherited through several
 super types were looked up under a wrong identifier

---
 ecore/abstracteobject.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index 803590b..15ad7ae 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -219,7 +219,7 @@ func (o *AbstractEObject) EFeatureID(feature EStructuralFeature) int {
 	if !o.AsEObject().EClass().GetEAllStructuralFeatures().Contains(feature) {
 		panic("The feature '" + feature.GetName() + "' is not a valid feature")
 	}
-	return o.AsEObjectInternal().EDerivedFeatureID(feature.EContainer(), feature.GetFeatureID())
+	return o.AsEObject().EClass().GetFeatureID(feature)
 }
 
 func (o *AbstractEObject) EDerivedFeatureID(container EObject, featureID int) int {
@@ -230,7 +230,7 @@ func (o *AbstractEObject) EOperationID(operation EOperation) int {
 	if !o.AsEObject().EClass().GetEAllOperations().Contains(operation) {
 		panic("The operation '" + operation.GetName() + "' is not a valid operation")
 	}
-	return o.AsEObjectInternal().EDerivedOperationID(operation.EContainer(), operation.GetOperationID())
+	return o.AsEObject().EClass().GetOperationID(operation)
 }
 
 func (o *AbstractEObject) EDerivedOperationID(container EObject, operationID int) int {
-- 
2.43.0


From d30c3e78b97352707c31c40d483e6e0c8bf9697c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 06/69] fix: inherited containment and cross references were
 missing from compact objects' contents and from contents filtered by class

---
 ecore/eclass_ext.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecore/eclass_ext.go b/ecore/eclass_ext.go
index 0863fcf..939df4f 100644
--- a/ecore/eclass_ext.go
+++ b/ecore/eclass_ext.go
@@ -236,12 +236,12 @@ func (eClass *EClassExt) initECrossReferenceFeatures() {
 }
 
 func (eClass *EClassExt) initFeaturesSubSet() {
-	eClass.initEAllStructuralFeatures()
+	eAllStructuralFeatures := eClass.GetEAllStructuralFeatures()
 	eClass.mutex.Lock()
 	if eClass.eContainmentFeatures == nil {
 		containments := []any{}
 		crossReferences := []any{}
-		for itFeature := eClass.GetEStructuralFeatures().Iterator(); itFeature.HasNext(); {
+		for itFeature := eAllStructuralFeatures.Iterator(); itFeature.HasNext(); {
 			ref, isRef := itFeature.Next().(EReference)
 			if isRef {
 				if ref.IsContainment() {
-- 
2.43.0


From 00d1516c5ece2dc0565c0f66c260520713797bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:16 +0000
Subject: [PATCH 07/69] fix: merging a removal into earlier removals lost the
 last removed position

---
 ecore/abstractnotification.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/abstractnotification.go b/ecore/abstractnotification.go
index e49b2cd..7b2b0ce 100644
--- a/ecore/abstractnotification.go
+++ b/ecore/abstractnotification.go
@@ -113,7 +113,7 @@ func (notif *AbstractNotification) Merge(eOther ENotification) bool {
 
 				newPositions = append(newPositions, notificationPosition)
 				index++
-				for index < len(positions) {
+				for index < len(positions)+1 {
 					newPositions = append(newPositions, positions[index-1])
 					index++
 				}
-- 
2.43.0


From ce52e5108d9e5cd21a47b86c1f31cf4b8d96f440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:57 +0000
Subject: [PATCH 08/69] fix: a compact object stayed a proxy after its proxy
 URI was removed

---
 ecore/compacteobject_impl.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecore/compacteobject_impl.go b/ecore/compacteobject_impl.go
index 153ab97..e19fc0e 100644
--- a/ecore/compacteobject_impl.go
+++ b/ecore/compacteobject_impl.go
@@ -202,7 +202,11 @@ func (o *CompactEObjectImpl) EProxyURI() *URI {
 
 // ESetProxyURI ...
 func (o *CompactEObjectImpl) ESetProxyURI(uri *URI) {
-	o.setField(proxy_flag, uri)
+	if uri == nil {
+		o.setField(proxy_flag, nil)
+	} else {
+		o.setField(proxy_flag, uri)
+	}
 }
 
 // EContents ...
-- 
2.43.0


From 18a98c3e645b6fec7e78565c832336a1e51c961c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:57 +0000
Subject: [PATCH 09/69] fix: switching the store or the cache of a store object
 lost values of transient features, of maps and values not yet read

---
 ecore/estoreeobject_impl.go | 59 ++++++++++++++++++++++++++++++-------
 ecore/estorelist.go         |  3 ++
 2 files changed, 51 insertions(+), 11 deletions(-)

diff --git a/ecore/estoreeobject_impl.go b/ecore/estoreeobject_impl.go
index 14a7f8e..37d13dc 100644
--- a/ecore/estoreeobject_impl.go
+++ b/ecore/estoreeobject_impl.go
@@ -68,36 +68,73 @@ func (o *EStoreEObjectImpl) SetEStore(newStore EStore) {
 	o.mutex.Lock()
 	if oldStore := o.store; newStore != oldStore {
 		// set store to object and its children
-		o.store = newStore
 		if newStore == nil {
 			// build cache with previous store
-			if !o.cache {
-				for featureID := range o.getProperties() {
-					if eFeature := o.eDynamicFeature(featureID); !eFeature.IsTransient() && !eFeature.IsMany() {
+			for featureID, v := range o.getProperties() {
+				if v != nil {
+					continue
+				}
+				if eFeature := o.eDynamicFeature(featureID); !eFeature.IsTransient() {
+					if !eFeature.IsMany() {
 						o.properties[featureID] = oldStore.Get(o.AsEObject(), eFeature, NO_INDEX)
+					} else if o.cache {
+						o.EDynamicGet(featureID)
 					}
 				}
 			}
+			o.store = nil
+			o.setPropertiesStore(nil)
 		} else {
 			// set container in store
+			o.store = newStore
 			o.setContainerInStore()
 
 			// set children collection store
-			for _, v := range o.properties {
-				if storeList, isStoreList := v.(*EStoreList); isStoreList {
-					storeList.SetEStore(newStore)
-				}
-			}
+			o.setPropertiesStore(newStore)
 
 			// clear properties because we are not caching
 			if !o.cache {
-				o.properties = nil
+				o.clearStoredProperties(false)
 			}
 		}
 	}
 	o.mutex.Unlock()
 }
 
+// set the store of the collections in properties
+func (o *EStoreEObjectImpl) setPropertiesStore(newStore EStore) {
+	for _, v := range o.properties {
+		switch collection := v.(type) {
+		case *EStoreList:
+			collection.SetEStore(newStore)
+		case *EStoreMap:
+			collection.SetEStore(newStore)
+		}
+	}
+}
+
+// clear the properties which are in the store: values of transient features are kept
+func (o *EStoreEObjectImpl) clearStoredProperties(keepCollections bool) {
+	var properties []any
+	for featureID, v := range o.properties {
+		keep := false
+		switch v.(type) {
+		case nil:
+		case *EStoreList, *EStoreMap:
+			keep = keepCollections
+		default:
+			keep = o.eDynamicFeature(featureID).IsTransient()
+		}
+		if keep {
+			if properties == nil {
+				properties = make([]any, len(o.properties))
+			}
+			properties[featureID] = v
+		}
+	}
+	o.properties = properties
+}
+
 func (o *EStoreEObjectImpl) SetCache(cache bool) {
 	o.mutex.Lock()
 	if o.cache != cache {
@@ -110,7 +147,7 @@ func (o *EStoreEObjectImpl) SetCache(cache bool) {
 			}
 		}
 		if o.store != nil {
-			o.properties = nil
+			o.clearStoredProperties(true)
 		}
 	}
 	o.mutex.Unlock()
diff --git a/ecore/estorelist.go b/ecore/estorelist.go
index a72784b..e756d81 100644
--- a/ecore/estorelist.go
+++ b/ecore/estorelist.go
@@ -126,6 +126,9 @@ func (list *EStoreList) SetEStore(newStore EStore) {
 			if !list.cache {
 				// got to backup store if data is not existing
 				list.data = oldStore.ToArray(list.owner, list.feature)
+				if list.data == nil {
+					list.data = []any{}
+				}
 			}
 		} else {
 			if !list.cache {
-- 
2.43.0


From 0b8a176fbf7d4fce613835aeb1ad7684b2ca3bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:18 +0000
Subject: [PATCH 10/69] fix: a map lost a key when one of several entries with
 that key was removed, and disagreed on which entry counts

---
 ecore/basicemap.go | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/ecore/basicemap.go b/ecore/basicemap.go
index d7b2697..e034adb 100644
--- a/ecore/basicemap.go
+++ b/ecore/basicemap.go
@@ -81,8 +81,7 @@ func (m *BasicEMap) getEntryForKey(key any) EMapEntry {
 func (m *BasicEMap) GetValue(key any) any {
 	m.mapMutex.Lock()
 	defer m.mapMutex.Unlock()
-	m.initDataMap()
-	return m.mapData[key]
+	return m.getDataMap()[key]
 }
 
 func (m *BasicEMap) Put(key any, value any) {
@@ -144,32 +143,49 @@ func (m *BasicEMap) ContainsValue(value any) bool {
 func (m *BasicEMap) ContainsKey(key any) bool {
 	m.mapMutex.Lock()
 	defer m.mapMutex.Unlock()
-	m.initDataMap()
-	_, ok := m.mapData[key]
+	_, ok := m.getDataMap()[key]
 	return ok
 }
 
 func (m *BasicEMap) ToMap() map[any]any {
 	m.mapMutex.Lock()
 	defer m.mapMutex.Unlock()
-	m.initDataMap()
-	return m.mapData
+	return m.getDataMap()
 }
 
-func (m *BasicEMap) initDataMap() {
-	if m.mapData == nil {
-		m.mapData = make(map[any]any, m.Size())
-		for itEntry := m.Iterator(); itEntry.HasNext(); {
-			entry := itEntry.Next().(EMapEntry)
-			m.mapData[entry.GetKey()] = entry.GetValue()
+func (m *BasicEMap) getDataMap() map[any]any {
+	if m.mapData != nil {
+		return m.mapData
+	}
+	mapData := make(map[any]any, m.Size())
+	hasDuplicates := false
+	for itEntry := m.Iterator(); itEntry.HasNext(); {
+		entry := itEntry.Next().(EMapEntry)
+		key := entry.GetKey()
+		if _, isDuplicate := mapData[key]; isDuplicate {
+			// first entry wins
+			hasDuplicates = true
+		} else {
+			mapData[key] = entry.GetValue()
 		}
 	}
+	// when several entries have the same key, the entry which wins depends on entries order
+	// so data can't be kept
+	if !hasDuplicates {
+		m.mapData = mapData
+	}
+	return mapData
 }
 
 func (m *BasicEMap) doAdd(e EMapEntry) {
 	m.mapMutex.Lock()
 	if m.mapData != nil {
-		m.mapData[e.GetKey()] = e.GetValue()
+		key := e.GetKey()
+		if _, isDuplicate := m.mapData[key]; isDuplicate {
+			m.mapData = nil
+		} else {
+			m.mapData[key] = e.GetValue()
+		}
 	}
 	m.mapMutex.Unlock()
 }
-- 
2.43.0


From 677a4b914b293b9658dfc925a1b31e74156776c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:18 +0000
Subject: [PATCH 11/69] fix: an empty map feature was reported as set

---
 ecore/abstracteobject.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index 15ad7ae..e8fafa4 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -547,8 +547,11 @@ func (o *AbstractEObject) eDynamicPropertiesIsSet(properties EDynamicProperties,
 
 // a property which is a list of the object is set when the list has elements
 func isSetProperty(value any) bool {
-	if list, isList := value.(ENotifyingList); isList {
-		return !list.Empty()
+	switch collection := value.(type) {
+	case ENotifyingList:
+		return !collection.Empty()
+	case EMap:
+		return !collection.Empty()
 	}
 	return value != nil
 }
-- 
2.43.0


From bad386a1670f9b4e64c806380bc03962b2034f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:18 +0000
Subject: [PATCH 12/69] fix: putting into a map of a store object panicked when
 entries are not cache providers

---
 ecore/estoremap.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ecore/estoremap.go b/ecore/estoremap.go
index f210933..d81d3fc 100644
--- a/ecore/estoremap.go
+++ b/ecore/estoremap.go
@@ -83,8 +83,9 @@ func (m *EStoreMap) IsCache() bool {
 func (m *EStoreMap) newEntry(key any, value any) EMapEntry {
 	eFactory := m.entryClass.GetEPackage().GetEFactoryInstance()
 	newEntry := eFactory.Create(m.entryClass).(EMapEntry)
-	newCacheProvider := newEntry.(ECacheProvider)
-	newCacheProvider.SetCache(m.IsCache())
+	if newCacheProvider, _ := newEntry.(ECacheProvider); newCacheProvider != nil {
+		newCacheProvider.SetCache(m.IsCache())
+	}
 	newEntry.SetKey(key)
 	newEntry.SetValue(value)
 	return newEntry
-- 
2.43.0


From e18e559bfffb382ffc1eaceb3485b1225df17861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:18 +0000
Subject: [PATCH 13/69] fix: removing a range from a store list without cache
 gave the wrong removed object to its callbacks

---
 ecore/estorelist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/estorelist.go b/ecore/estorelist.go
index e756d81..a9ea030 100644
--- a/ecore/estorelist.go
+++ b/ecore/estorelist.go
@@ -327,7 +327,7 @@ func (list *EStoreList) performRemoveRange(fromIndex int, toIndex int) []any {
 			for i := fromIndex; i < toIndex; i++ {
 				object := list.store.Remove(list.owner, list.feature, fromIndex, true)
 				result = append(result, object)
-				listCallbacks.DidRemove(fromIndex, result)
+				listCallbacks.DidRemove(fromIndex, object)
 			}
 			listCallbacks.DidChange()
 		} else {
-- 
2.43.0


From 8c3f69d226f4d776210911c54ca547a89e51c46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:13 +0000
Subject: [PATCH 14/69] fix: clearing or replacing adapters, and detaching one
 while notifying, left adapters with a wrong target or untold

---
 ecore/abstractenotifier.go | 18 +++++++++++++++++-
 ecore/econtentadapter.go   |  6 +++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/ecore/abstractenotifier.go b/ecore/abstractenotifier.go
index 8046305..8151da0 100644
--- a/ecore/abstractenotifier.go
+++ b/ecore/abstractenotifier.go
@@ -65,6 +65,17 @@ func (l *notifierAdapterList) DidRemove(index int, elem any) {
 	adapter.UnSetTarget(notifier)
 }
 
+func (l *notifierAdapterList) DidSet(index int, newElem any, oldElem any) {
+	l.DidRemove(index, oldElem)
+	l.DidAdd(index, newElem)
+}
+
+func (l *notifierAdapterList) DidClear(oldObjects []any) {
+	for i, elem := range oldObjects {
+		l.DidRemove(i, elem)
+	}
+}
+
 type AbstractENotifier struct {
 	interfaces any
 }
@@ -117,8 +128,13 @@ func (notifier *AbstractENotifier) ESetDeliver(value bool) {
 func (notifier *AbstractENotifier) ENotify(notification ENotification) {
 	n := notifier.AsENotifier()
 	if adapters := n.EAdapters(); adapters != nil && n.EDeliver() {
+		// adapters may be added or removed while they are notified
+		notified := []EAdapter{}
 		for it := adapters.Iterator(); it.HasNext(); {
-			it.Next().(EAdapter).NotifyChanged(notification)
+			notified = append(notified, it.Next().(EAdapter))
+		}
+		for _, adapter := range notified {
+			adapter.NotifyChanged(notification)
 		}
 	}
 }
diff --git a/ecore/econtentadapter.go b/ecore/econtentadapter.go
index bb55613..00f135e 100644
--- a/ecore/econtentadapter.go
+++ b/ecore/econtentadapter.go
@@ -119,7 +119,7 @@ func (adapter *EContentAdapter) handleContainment(notification ENotification) {
 		// Checking here avoids having to check during addAdapter.
 		//
 		oldNotifier, _ := notification.GetOldValue().(ENotifier)
-		if oldNotifier != nil && oldNotifier.EAdapters().Contains(adapter) {
+		if oldNotifier != nil && oldNotifier.EAdapters().Contains(adapter.interfaces) {
 			adapter.removeAdapter(oldNotifier)
 			adapter.addAdapter(notification.GetNewValue().(ENotifier))
 		}
@@ -178,12 +178,12 @@ func (adapter *EContentAdapter) removeAdapterWithChecks(notifier ENotifier, chec
 		if checkContainer || checkResource {
 			if internalEObject, _ := notifier.(EObjectInternal); internalEObject != nil {
 				if checkResource {
-					if internalResource := internalEObject.EInternalResource(); internalResource != nil && internalResource.EAdapters().Contains(adapter) {
+					if internalResource := internalEObject.EInternalResource(); internalResource != nil && internalResource.EAdapters().Contains(adapter.interfaces) {
 						return
 					}
 				}
 				if checkContainer {
-					if internalContainer := internalEObject.EInternalContainer(); internalContainer != nil && internalContainer.EAdapters().Contains(adapter) {
+					if internalContainer := internalEObject.EInternalContainer(); internalContainer != nil && internalContainer.EAdapters().Contains(adapter.interfaces) {
 						return
 					}
 				}
-- 
2.43.0


From 4048a36bfdb913a87af2b7d8c9c084cf2b603389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:10 +0000
Subject: [PATCH 15/69] fix: asking a removed feature, classifier or operation
 for its container panicked

---
 ecore/eannotation_impl.go        | 3 ++-
 ecore/eclassifier_impl.go        | 3 ++-
 ecore/eenumliteral_impl.go       | 3 ++-
 ecore/efactory_impl.go           | 3 ++-
 ecore/eoperation_impl.go         | 3 ++-
 ecore/epackage_impl.go           | 3 ++-
 ecore/eparameter_impl.go         | 3 ++-
 ecore/estructuralfeature_impl.go | 3 ++-
 8 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/ecore/eannotation_impl.go b/ecore/eannotation_impl.go
index b24b41a..b6df45e 100644
--- a/ecore/eannotation_impl.go
+++ b/ecore/eannotation_impl.go
@@ -82,7 +82,8 @@ func (e *EAnnotationImpl) GetDetails() EMap {
 // GetEModelElement get the value of eModelElement
 func (e *EAnnotationImpl) GetEModelElement() EModelElement {
 	if e.EContainerFeatureID() == EANNOTATION__EMODEL_ELEMENT {
-		return e.EContainer().(EModelElement)
+		container, _ := e.EContainer().(EModelElement)
+		return container
 	}
 	return nil
 }
diff --git a/ecore/eclassifier_impl.go b/ecore/eclassifier_impl.go
index e0bea23..e148fd1 100644
--- a/ecore/eclassifier_impl.go
+++ b/ecore/eclassifier_impl.go
@@ -88,7 +88,8 @@ func (e *EClassifierImpl) GetDefaultValue() any {
 // GetEPackage get the value of ePackage
 func (e *EClassifierImpl) GetEPackage() EPackage {
 	if e.EContainerFeatureID() == ECLASSIFIER__EPACKAGE {
-		return e.EContainer().(EPackage)
+		container, _ := e.EContainer().(EPackage)
+		return container
 	}
 	return nil
 }
diff --git a/ecore/eenumliteral_impl.go b/ecore/eenumliteral_impl.go
index f9fe633..37351b9 100644
--- a/ecore/eenumliteral_impl.go
+++ b/ecore/eenumliteral_impl.go
@@ -50,7 +50,8 @@ func (e *EEnumLiteralImpl) EStaticFeatureCount() int {
 // GetEEnum get the value of eEnum
 func (e *EEnumLiteralImpl) GetEEnum() EEnum {
 	if e.EContainerFeatureID() == EENUM_LITERAL__EENUM {
-		return e.EContainer().(EEnum)
+		container, _ := e.EContainer().(EEnum)
+		return container
 	}
 	return nil
 }
diff --git a/ecore/efactory_impl.go b/ecore/efactory_impl.go
index e080106..b90cea2 100644
--- a/ecore/efactory_impl.go
+++ b/ecore/efactory_impl.go
@@ -62,7 +62,8 @@ func (e *EFactoryImpl) CreateFromString(EDataType, string) any {
 // GetEPackage get the value of ePackage
 func (e *EFactoryImpl) GetEPackage() EPackage {
 	if e.EContainerFeatureID() == EFACTORY__EPACKAGE {
-		return e.EContainer().(EPackage)
+		container, _ := e.EContainer().(EPackage)
+		return container
 	}
 	return nil
 }
diff --git a/ecore/eoperation_impl.go b/ecore/eoperation_impl.go
index 2003ee3..84f1d56 100644
--- a/ecore/eoperation_impl.go
+++ b/ecore/eoperation_impl.go
@@ -61,7 +61,8 @@ func (e *EOperationImpl) IsOverrideOf(EOperation) bool {
 // GetEContainingClass get the value of eContainingClass
 func (e *EOperationImpl) GetEContainingClass() EClass {
 	if e.EContainerFeatureID() == EOPERATION__ECONTAINING_CLASS {
-		return e.EContainer().(EClass)
+		container, _ := e.EContainer().(EClass)
+		return container
 	}
 	return nil
 }
diff --git a/ecore/epackage_impl.go b/ecore/epackage_impl.go
index 61e2f0a..5fbac03 100644
--- a/ecore/epackage_impl.go
+++ b/ecore/epackage_impl.go
@@ -125,7 +125,8 @@ func (e *EPackageImpl) GetESubPackages() EList {
 // GetESuperPackage get the value of eSuperPackage
 func (e *EPackageImpl) GetESuperPackage() EPackage {
 	if e.EContainerFeatureID() == EPACKAGE__ESUPER_PACKAGE {
-		return e.EContainer().(EPackage)
+		container, _ := e.EContainer().(EPackage)
+		return container
 	}
 	return nil
 }
diff --git a/ecore/eparameter_impl.go b/ecore/eparameter_impl.go
index 6d9dc3e..5edd802 100644
--- a/ecore/eparameter_impl.go
+++ b/ecore/eparameter_impl.go
@@ -39,7 +39,8 @@ func (e *EParameterImpl) EStaticFeatureCount() int {
 // GetEOperation get the value of eOperation
 func (e *EParameterImpl) GetEOperation() EOperation {
 	if e.EContainerFeatureID() == EPARAMETER__EOPERATION {
-		return e.EContainer().(EOperation)
+		container, _ := e.EContainer().(EOperation)
+		return container
 	}
 	return nil
 }
diff --git a/ecore/estructuralfeature_impl.go b/ecore/estructuralfeature_impl.go
index 07face8..d817b67 100644
--- a/ecore/estructuralfeature_impl.go
+++ b/ecore/estructuralfeature_impl.go
@@ -91,7 +91,8 @@ func (e *EStructuralFeatureImpl) SetDefaultValueLiteral(newDefaultValueLiteral s
 // GetEContainingClass get the value of eContainingClass
 func (e *EStructuralFeatureImpl) GetEContainingClass() EClass {
 	if e.EContainerFeatureID() == ESTRUCTURAL_FEATURE__ECONTAINING_CLASS {
-		return e.EContainer().(EClass)
+		container, _ := e.EContainer().(EClass)
+		return container
 	}
 	return nil
 }
-- 
2.43.0


From 614b6cf4a165fd285eb1407e29f153a9a1624b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:10 +0000
Subject: [PATCH 16/69] fix: a package did not find its classifiers by their
 new name

---
 ecore/eclassifier_ext.go |  8 ++++++++
 ecore/epackage_ext.go    | 32 ++++++++++++++++++++++----------
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/ecore/eclassifier_ext.go b/ecore/eclassifier_ext.go
index f94ebe3..33bab46 100644
--- a/ecore/eclassifier_ext.go
+++ b/ecore/eclassifier_ext.go
@@ -21,6 +21,14 @@ func newEClassifierExt() *EClassifierExt {
 	return eClassifier
 }
 
+// SetName set the value of name
+func (eClassifier *EClassifierExt) SetName(newName string) {
+	eClassifier.EClassifierImpl.SetName(newName)
+	if ePackage, _ := eClassifier.GetEPackage().(ePackageInternal); ePackage != nil {
+		ePackage.resetClassifiers()
+	}
+}
+
 func (eClassifier *EClassifierExt) initClassifierID() int {
 	if ePackage := eClassifier.GetEPackage(); ePackage != nil {
 		return ePackage.GetEClassifiers().IndexOf(eClassifier.asEClassifier())
diff --git a/ecore/epackage_ext.go b/ecore/epackage_ext.go
index e224186..2f5c1ee 100644
--- a/ecore/epackage_ext.go
+++ b/ecore/epackage_ext.go
@@ -21,9 +21,7 @@ func (a *ePackageExtAdapter) NotifyChanged(notification ENotification) {
 	if eventType != REMOVING_ADAPTER {
 		featureID := notification.GetFeatureID()
 		if featureID == EPACKAGE__ECLASSIFIERS {
-			a.pack.classifierMutex.Lock()
-			a.pack.classifierCache = nil
-			a.pack.classifierMutex.Unlock()
+			a.pack.resetClassifiers()
 		}
 	}
 }
@@ -51,21 +49,35 @@ func (pack *EPackageExt) Initialize() {
 }
 
 func (pack *EPackageExt) GetEClassifier(classifier string) EClassifier {
-	// retrieve map
 	pack.classifierMutex.Lock()
-	defer pack.classifierMutex.Unlock()
+	classifierCache := pack.classifierCache
+	pack.classifierMutex.Unlock()
 
-	// initialize map if needed
-	if pack.classifierCache == nil {
-		pack.classifierCache = map[string]EClassifier{}
+	// initialize map if needed, without holding the mutex: classifiers may be resolved
+	if classifierCache == nil {
+		classifierCache = map[string]EClassifier{}
 		for itClassifier := pack.GetEClassifiers().Iterator(); itClassifier.HasNext(); {
 			classifier := itClassifier.Next().(EClassifier)
-			pack.classifierCache[classifier.GetName()] = classifier
+			classifierCache[classifier.GetName()] = classifier
 		}
+		pack.classifierMutex.Lock()
+		pack.classifierCache = classifierCache
+		pack.classifierMutex.Unlock()
 	}
 
 	// read map value
-	return pack.classifierCache[classifier]
+	return classifierCache[classifier]
+}
+
+type ePackageInternal interface {
+	resetClassifiers()
+}
+
+// resetClassifiers is called when the classifiers or one of their names are modified
+func (pack *EPackageExt) resetClassifiers() {
+	pack.classifierMutex.Lock()
+	pack.classifierCache = nil
+	pack.classifierMutex.Unlock()
 }
 
 func (pack *EPackageExt) CreateResource() EResource {
-- 
2.43.0


From b85a094645c98a3212a653b5eef3010b157367f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:10 +0000
Subject: [PATCH 17/69] fix: informations derived by a class were stale,
 duplicated or never computed

The features, operations and super types inherited through several paths
were duplicated. Changes of cross references, names, containment, opposites
and types were ignored. Resolving super types or asking for an override
blocked on the mutex held while computing.
---
 ecore/eclass_ext.go             | 314 ++++++++++++++++----------------
 ecore/ereference_ext.go         |  30 +++
 ecore/estructuralfeature_ext.go |  36 ++++
 3 files changed, 228 insertions(+), 152 deletions(-)

diff --git a/ecore/eclass_ext.go b/ecore/eclass_ext.go
index 939df4f..d84d60a 100644
--- a/ecore/eclass_ext.go
+++ b/ecore/eclass_ext.go
@@ -14,11 +14,10 @@ import "sync"
 // EClassExt is the extension of the model object 'EClass'
 type EClassExt struct {
 	EClassImpl
-	adapter                *eSuperAdapter
-	nameToFeatureMap       map[string]EStructuralFeature
-	operationToOverrideMap map[EOperation]EOperation
-	subClasses             []EClassInternal
-	mutex                  sync.Mutex
+	adapter          *eSuperAdapter
+	nameToFeatureMap map[string]EStructuralFeature
+	subClasses       []EClassInternal
+	mutex            sync.Mutex
 }
 
 type EClassInternal interface {
@@ -143,11 +142,11 @@ func (eClass *EClassExt) GetEStructuralFeatureFromName(featureName string) EStru
 }
 
 func (eClass *EClassExt) initNameToFeatureMap() {
-	eClass.initEAllStructuralFeatures()
+	features := eClass.GetEAllStructuralFeatures()
 	eClass.mutex.Lock()
 	if eClass.nameToFeatureMap == nil {
 		eClass.nameToFeatureMap = make(map[string]EStructuralFeature)
-		for itFeature := eClass.eAllStructuralFeatures.Iterator(); itFeature.HasNext(); {
+		for itFeature := features.Iterator(); itFeature.HasNext(); {
 			feature := itFeature.Next().(EStructuralFeature)
 			eClass.nameToFeatureMap[feature.GetName()] = feature
 		}
@@ -194,29 +193,15 @@ func (eClass *EClassExt) GetOperationID(operation EOperation) int {
 }
 
 func (eClass *EClassExt) GetOverride(operation EOperation) EOperation {
-	eClass.initOperationToOverrideMap()
-	eClass.mutex.Lock()
-	defer eClass.mutex.Unlock()
-	return eClass.operationToOverrideMap[operation]
-}
-
-func (eClass *EClassExt) initOperationToOverrideMap() {
-	eClass.initEAllOperations()
-	eClass.mutex.Lock()
-	if eClass.operationToOverrideMap == nil {
-		eClass.operationToOverrideMap = make(map[EOperation]EOperation)
-		size := eClass.eAllOperations.Size()
-		for i := 0; i < size; i++ {
-			for j := size - 1; j > i; j-- {
-				oi := eClass.eAllOperations.Get(i).(EOperation)
-				oj := eClass.eAllOperations.Get(j).(EOperation)
-				if oj.IsOverrideOf(oi) {
-					eClass.operationToOverrideMap[oi] = oj
-				}
+	eAllOperations := eClass.GetEAllOperations()
+	if index := eAllOperations.IndexOf(operation); index != -1 {
+		for i := index + 1; i < eAllOperations.Size(); i++ {
+			if override := eAllOperations.Get(i).(EOperation); override.IsOverrideOf(operation) {
+				return override
 			}
 		}
 	}
-	eClass.mutex.Unlock()
+	return nil
 }
 
 func (eClass *EClassExt) initEAttributes() {
@@ -235,27 +220,48 @@ func (eClass *EClassExt) initECrossReferenceFeatures() {
 	eClass.initFeaturesSubSet()
 }
 
+// isInitialized tells if a derived list is already computed
+func (eClass *EClassExt) isInitialized(list *EList) bool {
+	eClass.mutex.Lock()
+	defer eClass.mutex.Unlock()
+	return *list != nil
+}
+
+// addMissing appends to a list the elements of a collection which are not in the list
+func addMissing(list []any, index map[any]struct{}, collection Collection) []any {
+	for it := collection.Iterator(); it.HasNext(); {
+		element := it.Next()
+		if _, isPresent := index[element]; !isPresent {
+			index[element] = struct{}{}
+			list = append(list, element)
+		}
+	}
+	return list
+}
+
 func (eClass *EClassExt) initFeaturesSubSet() {
 	eAllStructuralFeatures := eClass.GetEAllStructuralFeatures()
-	eClass.mutex.Lock()
-	if eClass.eContainmentFeatures == nil {
-		containments := []any{}
-		crossReferences := []any{}
-		for itFeature := eAllStructuralFeatures.Iterator(); itFeature.HasNext(); {
-			ref, isRef := itFeature.Next().(EReference)
-			if isRef {
-				if ref.IsContainment() {
-					if !ref.IsDerived() {
-						containments = append(containments, ref)
-					}
-				} else if !ref.IsContainer() {
-					if !ref.IsDerived() {
-						crossReferences = append(crossReferences, ref)
-					}
+	if eClass.isInitialized(&eClass.eContainmentFeatures) {
+		return
+	}
+	containments := []any{}
+	crossReferences := []any{}
+	for itFeature := eAllStructuralFeatures.Iterator(); itFeature.HasNext(); {
+		ref, isRef := itFeature.Next().(EReference)
+		if isRef {
+			if ref.IsContainment() {
+				if !ref.IsDerived() {
+					containments = append(containments, ref)
+				}
+			} else if !ref.IsContainer() {
+				if !ref.IsDerived() {
+					crossReferences = append(crossReferences, ref)
 				}
 			}
-
 		}
+	}
+	eClass.mutex.Lock()
+	if eClass.eContainmentFeatures == nil {
 		eClass.eContainmentFeatures = NewImmutableEList(containments)
 		eClass.eCrossReferenceFeatures = NewImmutableEList(crossReferences)
 	}
@@ -263,33 +269,36 @@ func (eClass *EClassExt) initFeaturesSubSet() {
 }
 
 func (eClass *EClassExt) initEAllAttributes() {
-	eClass.mutex.Lock()
-	if eClass.eAllAttributes == nil {
+	if eClass.isInitialized(&eClass.eAllAttributes) {
+		return
+	}
+	// the super types are asked without holding the mutex: they may be resolved
+	// and they have their own mutex
+	allAttributes := []any{}
+	index := map[any]struct{}{}
+	for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
+		allAttributes = addMissing(allAttributes, index, itClass.Next().(EClass).GetEAllAttributes())
+	}
 
-		attributes := []any{}
-		allAttributes := []any{}
-		var eIDAttribute EAttribute = nil
-		for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
-			superAttributes := itClass.Next().(EClass).GetEAllAttributes()
-			for itAttribute := superAttributes.Iterator(); itAttribute.HasNext(); {
-				attribute := itAttribute.Next().(EAttribute)
-				allAttributes = append(allAttributes, attribute)
-				if attribute.IsID() && eIDAttribute == nil {
-					eIDAttribute = attribute
-				}
-			}
+	attributes := []any{}
+	for itFeature := eClass.GetEStructuralFeatures().Iterator(); itFeature.HasNext(); {
+		attribute, isAttribute := itFeature.Next().(EAttribute)
+		if isAttribute {
+			attributes = append(attributes, attribute)
+			allAttributes = append(allAttributes, attribute)
 		}
+	}
 
-		for itFeature := eClass.GetEStructuralFeatures().Iterator(); itFeature.HasNext(); {
-			attribute, isAttribute := itFeature.Next().(EAttribute)
-			if isAttribute {
-				attributes = append(attributes, attribute)
-				allAttributes = append(allAttributes, attribute)
-				if attribute.IsID() && eIDAttribute == nil {
-					eIDAttribute = attribute
-				}
-			}
+	var eIDAttribute EAttribute = nil
+	for _, attribute := range allAttributes {
+		if attribute := attribute.(EAttribute); attribute.IsID() {
+			eIDAttribute = attribute
+			break
 		}
+	}
+
+	eClass.mutex.Lock()
+	if eClass.eAllAttributes == nil {
 		eClass.eIDAttribute = eIDAttribute
 		eClass.eAttributes = NewImmutableEList(attributes)
 		eClass.eAllAttributes = NewImmutableEList(allAttributes)
@@ -298,23 +307,26 @@ func (eClass *EClassExt) initEAllAttributes() {
 }
 
 func (eClass *EClassExt) initEAllReferences() {
-	eClass.mutex.Lock()
-	if eClass.eAllReferences == nil {
-		allReferences := []any{}
-		references := []any{}
-		for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
-			superReferences := itClass.Next().(EClass).GetEAllReferences()
-			allReferences = append(allReferences, superReferences.ToArray()...)
-		}
+	if eClass.isInitialized(&eClass.eAllReferences) {
+		return
+	}
+	allReferences := []any{}
+	index := map[any]struct{}{}
+	for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
+		allReferences = addMissing(allReferences, index, itClass.Next().(EClass).GetEAllReferences())
+	}
 
-		for itFeature := eClass.GetEStructuralFeatures().Iterator(); itFeature.HasNext(); {
-			reference, isReference := itFeature.Next().(EReference)
-			if isReference {
-				references = append(references, reference)
-				allReferences = append(allReferences, reference)
-			}
+	references := []any{}
+	for itFeature := eClass.GetEStructuralFeatures().Iterator(); itFeature.HasNext(); {
+		reference, isReference := itFeature.Next().(EReference)
+		if isReference {
+			references = append(references, reference)
+			allReferences = append(allReferences, reference)
 		}
+	}
 
+	eClass.mutex.Lock()
+	if eClass.eAllReferences == nil {
 		eClass.eReferences = NewImmutableEList(references)
 		eClass.eAllReferences = NewImmutableEList(allReferences)
 	}
@@ -322,56 +334,57 @@ func (eClass *EClassExt) initEAllReferences() {
 }
 
 func (eClass *EClassExt) initEAllContainments() {
-	eClass.initEAllReferences()
+	if eClass.isInitialized(&eClass.eAllContainments) {
+		return
+	}
+	allContainments := []any{}
+	for itReference := eClass.GetEAllReferences().Iterator(); itReference.HasNext(); {
+		reference := itReference.Next().(EReference)
+		if reference.IsContainment() {
+			allContainments = append(allContainments, reference)
+		}
+	}
 	eClass.mutex.Lock()
 	if eClass.eAllContainments == nil {
-		allContainments := []any{}
-		for itReference := eClass.eAllReferences.Iterator(); itReference.HasNext(); {
-			reference := itReference.Next().(EReference)
-			if reference.IsContainment() {
-				allContainments = append(allContainments, reference)
-			}
-		}
 		eClass.eAllContainments = NewImmutableEList(allContainments)
 	}
 	eClass.mutex.Unlock()
 }
 
 func (eClass *EClassExt) initEAllCrossReferences() {
-	eClass.initEAllReferences()
+	if eClass.isInitialized(&eClass.eAllCrossReferences) {
+		return
+	}
+	allCrossReferences := []any{}
+	for itReference := eClass.GetEAllReferences().Iterator(); itReference.HasNext(); {
+		reference := itReference.Next().(EReference)
+		if !reference.IsContainment() && !reference.IsContainer() {
+			allCrossReferences = append(allCrossReferences, reference)
+		}
+	}
 	eClass.mutex.Lock()
 	if eClass.eAllCrossReferences == nil {
-		allCrossReferences := []any{}
-		for itReference := eClass.eAllReferences.Iterator(); itReference.HasNext(); {
-			reference := itReference.Next().(EReference)
-			if !reference.IsContainment() && !reference.IsContainer() {
-				allCrossReferences = append(allCrossReferences, reference)
-			}
-		}
 		eClass.eAllCrossReferences = NewImmutableEList(allCrossReferences)
 	}
 	eClass.mutex.Unlock()
 }
 
 func (eClass *EClassExt) initEAllOperations() {
+	if eClass.isInitialized(&eClass.eAllOperations) {
+		return
+	}
+	allOperations := []any{}
+	index := map[any]struct{}{}
+	for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
+		allOperations = addMissing(allOperations, index, itClass.Next().(EClass).GetEAllOperations())
+	}
+	operationID := len(allOperations)
+	allOperations = append(allOperations, eClass.GetEOperations().ToArray()...)
+
 	eClass.mutex.Lock()
 	if eClass.eAllOperations == nil {
-		eClass.operationToOverrideMap = nil
-
-		allOperations := []any{}
-		for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
-			superOperations := itClass.Next().(EClass).GetEAllOperations()
-			allOperations = append(allOperations, superOperations.ToArray()...)
-		}
-
-		operationID := len(allOperations)
-		for itFeature := eClass.GetEOperations().Iterator(); itFeature.HasNext(); {
-			operation, isOperation := itFeature.Next().(EOperation)
-			if isOperation {
-				operation.SetOperationID(operationID)
-				operationID++
-				allOperations = append(allOperations, operation)
-			}
+		for ; operationID < len(allOperations); operationID++ {
+			allOperations[operationID].(EOperation).SetOperationID(operationID)
 		}
 		eClass.eAllOperations = NewImmutableEList(allOperations)
 	}
@@ -379,24 +392,24 @@ func (eClass *EClassExt) initEAllOperations() {
 }
 
 func (eClass *EClassExt) initEAllStructuralFeatures() {
+	if eClass.isInitialized(&eClass.eAllStructuralFeatures) {
+		return
+	}
+	allFeatures := []any{}
+	index := map[any]struct{}{}
+	for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
+		allFeatures = addMissing(allFeatures, index, itClass.Next().(EClass).GetEAllStructuralFeatures())
+	}
+	featureID := len(allFeatures)
+	allFeatures = append(allFeatures, eClass.GetEStructuralFeatures().ToArray()...)
+
 	eClass.mutex.Lock()
 	if eClass.eAllStructuralFeatures == nil {
 		eClass.eCrossReferenceFeatures = nil
 		eClass.eContainmentFeatures = nil
 		eClass.nameToFeatureMap = nil
-
-		allFeatures := []any{}
-		for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
-			superFeatures := itClass.Next().(EClass).GetEAllStructuralFeatures()
-			allFeatures = append(allFeatures, superFeatures.ToArray()...)
-		}
-
-		featureID := len(allFeatures)
-		for itFeature := eClass.GetEStructuralFeatures().Iterator(); itFeature.HasNext(); {
-			feature := itFeature.Next().(EStructuralFeature)
-			feature.SetFeatureID(featureID)
-			featureID++
-			allFeatures = append(allFeatures, feature)
+		for ; featureID < len(allFeatures); featureID++ {
+			allFeatures[featureID].(EStructuralFeature).SetFeatureID(featureID)
 		}
 		eClass.eAllStructuralFeatures = NewImmutableEList(allFeatures)
 	}
@@ -404,15 +417,18 @@ func (eClass *EClassExt) initEAllStructuralFeatures() {
 }
 
 func (eClass *EClassExt) initEAllSuperTypes() {
+	if eClass.isInitialized(&eClass.eAllSuperTypes) {
+		return
+	}
+	allSuperTypes := []any{}
+	index := map[any]struct{}{}
+	for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
+		superClass := itClass.Next().(EClass)
+		allSuperTypes = addMissing(allSuperTypes, index, superClass.GetEAllSuperTypes())
+		allSuperTypes = addMissing(allSuperTypes, index, NewImmutableEList([]any{superClass}))
+	}
 	eClass.mutex.Lock()
 	if eClass.eAllSuperTypes == nil {
-		allSuperTypes := []any{}
-		for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
-			superClass := itClass.Next().(EClass)
-			superTypes := superClass.GetEAllSuperTypes()
-			allSuperTypes = append(allSuperTypes, superTypes.ToArray()...)
-			allSuperTypes = append(allSuperTypes, superClass)
-		}
 		eClass.eAllSuperTypes = NewImmutableEList(allSuperTypes)
 	}
 	eClass.mutex.Unlock()
@@ -437,34 +453,28 @@ func (eClass *EClassExt) setSubClasses(subClasses []EClassInternal) {
 func (eClass *EClassExt) setModified(featureID int) {
 	eClass.mutex.Lock()
 	switch featureID {
-	case ECLASS__ESTRUCTURAL_FEATURES:
-		eClass.eAllAttributes = nil
-		eClass.eAllStructuralFeatures = nil
-		eClass.eAllReferences = nil
-		eClass.eAllContainments = nil
-	case ECLASS__EATTRIBUTES:
-		eClass.eAllAttributes = nil
-		eClass.eAllStructuralFeatures = nil
-		eClass.eAllContainments = nil
-	case ECLASS__EREFERENCES:
-		eClass.eAllReferences = nil
-		eClass.eAllStructuralFeatures = nil
-		eClass.eAllContainments = nil
+	case ECLASS__ESTRUCTURAL_FEATURES, ECLASS__EATTRIBUTES, ECLASS__EREFERENCES:
+		eClass.resetFeatures()
 	case ECLASS__EOPERATIONS:
 		eClass.eAllOperations = nil
-		eClass.eAllContainments = nil
 	case ECLASS__ESUPER_TYPES:
 		eClass.eAllSuperTypes = nil
-		eClass.eAllAttributes = nil
 		eClass.eAllOperations = nil
-		eClass.eAllStructuralFeatures = nil
-		eClass.eAllReferences = nil
-		eClass.eAllContainments = nil
+		eClass.resetFeatures()
 	}
-	for _, s := range eClass.subClasses {
+	subClasses := append([]EClassInternal{}, eClass.subClasses...)
+	eClass.mutex.Unlock()
+	for _, s := range subClasses {
 		s.setModified(featureID)
 	}
-	eClass.mutex.Unlock()
+}
+
+func (eClass *EClassExt) resetFeatures() {
+	eClass.eAllAttributes = nil
+	eClass.eAllStructuralFeatures = nil
+	eClass.eAllReferences = nil
+	eClass.eAllContainments = nil
+	eClass.eAllCrossReferences = nil
 }
 
 func IsMapEntry(eClass EClass) bool {
diff --git a/ecore/ereference_ext.go b/ecore/ereference_ext.go
index a989e6a..8bf280c 100644
--- a/ecore/ereference_ext.go
+++ b/ecore/ereference_ext.go
@@ -27,6 +27,36 @@ func (eReference *EReferenceExt) IsContainer() bool {
 	return opposite != nil && opposite.IsContainment()
 }
 
+// SetContainment set the value of isContainment
+func (eReference *EReferenceExt) SetContainment(newIsContainment bool) {
+	eReference.EReferenceImpl.SetContainment(newIsContainment)
+	eReference.setClassModified()
+	// the opposite is a container or not
+	if opposite := eReference.basicGetEOpposite(); opposite != nil && !opposite.EIsProxy() {
+		if eClass, _ := opposite.GetEContainingClass().(EClassInternal); eClass != nil {
+			eClass.setModified(ECLASS__EREFERENCES)
+		}
+	}
+}
+
+// SetEOpposite set the value of eOpposite
+func (eReference *EReferenceExt) SetEOpposite(newEOpposite EReference) {
+	eReference.EReferenceImpl.SetEOpposite(newEOpposite)
+	eReference.setClassModified()
+}
+
+// SetEType set the value of eType
+func (eReference *EReferenceExt) SetEType(newEType EClassifier) {
+	eReference.eReferenceType = nil
+	eReference.EReferenceImpl.SetEType(newEType)
+}
+
+// UnsetEType unset the value of eType
+func (eReference *EReferenceExt) UnsetEType() {
+	eReference.eReferenceType = nil
+	eReference.EReferenceImpl.UnsetEType()
+}
+
 func (eReference *EReferenceExt) GetEReferenceType() EClass {
 	if eReference.eReferenceType == nil || eReference.eReferenceType.EIsProxy() {
 		eType := eReference.GetEType()
diff --git a/ecore/estructuralfeature_ext.go b/ecore/estructuralfeature_ext.go
index 02ea3ed..03a6249 100644
--- a/ecore/estructuralfeature_ext.go
+++ b/ecore/estructuralfeature_ext.go
@@ -66,6 +66,42 @@ func (eStructuralFeature *EStructuralFeatureExt) SetDefaultValueLiteral(newDefau
 	eStructuralFeature.EStructuralFeatureImpl.SetDefaultValueLiteral(newDefaultValueLiteral)
 }
 
+// SetEType set the value of eType
+func (eStructuralFeature *EStructuralFeatureExt) SetEType(newEType EClassifier) {
+	eStructuralFeature.resetDefaultValue()
+	eStructuralFeature.EStructuralFeatureImpl.SetEType(newEType)
+}
+
+// UnsetEType unset the value of eType
+func (eStructuralFeature *EStructuralFeatureExt) UnsetEType() {
+	eStructuralFeature.resetDefaultValue()
+	eStructuralFeature.EStructuralFeatureImpl.UnsetEType()
+}
+
+func (eStructuralFeature *EStructuralFeatureExt) resetDefaultValue() {
+	eStructuralFeature.defaultValue = nil
+	eStructuralFeature.defaultValueFactory = nil
+}
+
+// SetName set the value of name
+func (eStructuralFeature *EStructuralFeatureExt) SetName(newName string) {
+	eStructuralFeature.EStructuralFeatureImpl.SetName(newName)
+	eStructuralFeature.setClassModified()
+}
+
+// SetDerived set the value of isDerived
+func (eStructuralFeature *EStructuralFeatureExt) SetDerived(newIsDerived bool) {
+	eStructuralFeature.EStructuralFeatureImpl.SetDerived(newIsDerived)
+	eStructuralFeature.setClassModified()
+}
+
+// setClassModified tells the containing class that the informations it derives from this feature are modified
+func (eStructuralFeature *EStructuralFeatureExt) setClassModified() {
+	if eClass, _ := eStructuralFeature.GetEContainingClass().(EClassInternal); eClass != nil {
+		eClass.setModified(ECLASS__ESTRUCTURAL_FEATURES)
+	}
+}
+
 // GetFeatureID get the value of featureID
 func (eStructuralFeature *EStructuralFeatureExt) GetFeatureID() int {
 	return eStructuralFeature.featureID
-- 
2.43.0


From bf0c2f2e6d87e7561586e17116401e1cdb766ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:50 +0000
Subject: [PATCH 18/69] fix: notifications of resolved references had a part of
 the object as notifier

---
 ecore/eannotation_impl.go   | 2 +-
 ecore/efactory_impl.go      | 2 +-
 ecore/egenerictype_impl.go  | 4 ++--
 ecore/ereference_impl.go    | 2 +-
 ecore/etypedelement_impl.go | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ecore/eannotation_impl.go b/ecore/eannotation_impl.go
index b6df45e..bcc05b5 100644
--- a/ecore/eannotation_impl.go
+++ b/ecore/eannotation_impl.go
@@ -103,7 +103,7 @@ func (e *EAnnotationImpl) SetEModelElement(newEModelElement EModelElement) {
 			notifications.Dispatch()
 		}
 	} else if e.ENotificationRequired() {
-		e.ENotify(NewNotificationByFeatureID(e, SET, EANNOTATION__EMODEL_ELEMENT, newEModelElement, newEModelElement, NO_INDEX))
+		e.ENotify(NewNotificationByFeatureID(e.AsEObject(), SET, EANNOTATION__EMODEL_ELEMENT, newEModelElement, newEModelElement, NO_INDEX))
 	}
 }
 
diff --git a/ecore/efactory_impl.go b/ecore/efactory_impl.go
index b90cea2..1cb4ec5 100644
--- a/ecore/efactory_impl.go
+++ b/ecore/efactory_impl.go
@@ -83,7 +83,7 @@ func (e *EFactoryImpl) SetEPackage(newEPackage EPackage) {
 			notifications.Dispatch()
 		}
 	} else if e.ENotificationRequired() {
-		e.ENotify(NewNotificationByFeatureID(e, SET, EFACTORY__EPACKAGE, newEPackage, newEPackage, NO_INDEX))
+		e.ENotify(NewNotificationByFeatureID(e.AsEObject(), SET, EFACTORY__EPACKAGE, newEPackage, newEPackage, NO_INDEX))
 	}
 }
 
diff --git a/ecore/egenerictype_impl.go b/ecore/egenerictype_impl.go
index 30509fa..c84a450 100644
--- a/ecore/egenerictype_impl.go
+++ b/ecore/egenerictype_impl.go
@@ -78,7 +78,7 @@ func (e *EGenericTypeImpl) GetEClassifier() EClassifier {
 		e.eClassifier = newEClassifier
 		if newEClassifier != oldEClassifier {
 			if e.ENotificationRequired() {
-				e.ENotify(NewNotificationByFeatureID(e, RESOLVE, EGENERIC_TYPE__ECLASSIFIER, oldEClassifier, newEClassifier, NO_INDEX))
+				e.ENotify(NewNotificationByFeatureID(e.AsEObject(), RESOLVE, EGENERIC_TYPE__ECLASSIFIER, oldEClassifier, newEClassifier, NO_INDEX))
 			}
 		}
 	}
@@ -143,7 +143,7 @@ func (e *EGenericTypeImpl) GetERawType() EClassifier {
 		e.eRawType = newERawType
 		if newERawType != oldERawType {
 			if e.ENotificationRequired() {
-				e.ENotify(NewNotificationByFeatureID(e, RESOLVE, EGENERIC_TYPE__ERAW_TYPE, oldERawType, newERawType, NO_INDEX))
+				e.ENotify(NewNotificationByFeatureID(e.AsEObject(), RESOLVE, EGENERIC_TYPE__ERAW_TYPE, oldERawType, newERawType, NO_INDEX))
 			}
 		}
 	}
diff --git a/ecore/ereference_impl.go b/ecore/ereference_impl.go
index fc3f252..a5c0aaa 100644
--- a/ecore/ereference_impl.go
+++ b/ecore/ereference_impl.go
@@ -79,7 +79,7 @@ func (e *EReferenceImpl) GetEOpposite() EReference {
 		e.eOpposite = newEOpposite
 		if newEOpposite != oldEOpposite {
 			if e.ENotificationRequired() {
-				e.ENotify(NewNotificationByFeatureID(e, RESOLVE, EREFERENCE__EOPPOSITE, oldEOpposite, newEOpposite, NO_INDEX))
+				e.ENotify(NewNotificationByFeatureID(e.AsEObject(), RESOLVE, EREFERENCE__EOPPOSITE, oldEOpposite, newEOpposite, NO_INDEX))
 			}
 		}
 	}
diff --git a/ecore/etypedelement_impl.go b/ecore/etypedelement_impl.go
index bd8b0c8..2faaad9 100644
--- a/ecore/etypedelement_impl.go
+++ b/ecore/etypedelement_impl.go
@@ -66,7 +66,7 @@ func (e *ETypedElementImpl) GetEType() EClassifier {
 		e.eType = newEType
 		if newEType != oldEType {
 			if e.ENotificationRequired() {
-				e.ENotify(NewNotificationByFeatureID(e, RESOLVE, ETYPED_ELEMENT__ETYPE, oldEType, newEType, NO_INDEX))
+				e.ENotify(NewNotificationByFeatureID(e.AsEObject(), RESOLVE, ETYPED_ELEMENT__ETYPE, oldEType, newEType, NO_INDEX))
 			}
 		}
 	}
-- 
2.43.0


From 4975030da5c187c8d263b65df51737bef662270c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:15 +0000
Subject: [PATCH 19/69] fix: resolving a contained proxy emptied the reference
 when the object knew its container already

---
 ecore/abstracteobject.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index e8fafa4..8d963a6 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -679,6 +679,9 @@ func (o *AbstractEObject) EInverseAdd(otherEnd EObject, featureID int, n ENotifi
 	if featureID >= 0 {
 		return o.AsEObjectInternal().EBasicInverseAdd(otherEnd, featureID, notifications)
 	} else {
+		if o.eIsContainedBy(otherEnd, featureID) {
+			return notifications
+		}
 		notifications = o.EBasicRemoveFromContainer(notifications)
 		return o.EBasicSetContainer(otherEnd, featureID, notifications)
 	}
@@ -699,6 +702,13 @@ func (o *AbstractEObject) EResolveProxy(proxy EObject) EObject {
 }
 
 // EBasicInverseAdd ...
+// eIsContainedBy returns true if the object already is contained by the container through the feature :
+// a proxy was resolved to an object that has found its container before
+func (o *AbstractEObject) eIsContainedBy(container EObject, containerFeatureID int) bool {
+	objInternal := o.AsEObjectInternal()
+	return container != nil && objInternal.EInternalContainer() == container && objInternal.EInternalContainerFeatureID() == containerFeatureID
+}
+
 func (o *AbstractEObject) EBasicInverseAdd(otherEnd EObject, featureID int, notifications ENotificationChain) ENotificationChain {
 	feature := o.AsEObject().EClass().GetEStructuralFeature(featureID)
 	dynamicFeatureID := featureID - o.AsEObjectInternal().EStaticFeatureCount()
@@ -725,10 +735,13 @@ func (o *AbstractEObject) eDynamicPropertiesInverseAdd(properties EDynamicProper
 		}
 	} else if IsContainer(dynamicFeature) {
 		msgs := notifications
+		featureID := o.AsEObject().EClass().GetFeatureID(dynamicFeature)
+		if o.eIsContainedBy(otherEnd, featureID) {
+			return msgs
+		}
 		if o.AsEObjectInternal().EInternalContainer() != nil {
 			msgs = o.EBasicRemoveFromContainer(msgs)
 		}
-		featureID := o.AsEObject().EClass().GetFeatureID(dynamicFeature)
 		return o.EBasicSetContainer(otherEnd, featureID, msgs)
 	} else {
 		// inverse - opposite
-- 
2.43.0


From 797114518386c442746838eec06ecb62e769c6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:51 +0000
Subject: [PATCH 20/69] fix: an identifier given twice left stale entries in
 the identifier managers

---
 ecore/eobjectidmanager_impl.go | 13 +++++++++++--
 ecore/uniqueidmanager.go       | 12 ++++++++++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/ecore/eobjectidmanager_impl.go b/ecore/eobjectidmanager_impl.go
index b25f7c9..4051cc3 100644
--- a/ecore/eobjectidmanager_impl.go
+++ b/ecore/eobjectidmanager_impl.go
@@ -31,13 +31,22 @@ func (m *EObjectIDManagerImpl) Clear() {
 }
 
 func (m *EObjectIDManagerImpl) Register(eObject EObject) {
+	m.UnRegister(eObject)
 	id := GetEObjectID(eObject)
 	if len(id) > 0 {
-		m.idToObject[id] = eObject
+		m.setObject(id, eObject)
 		m.objectToID[eObject] = id
 	}
 }
 
+// setObject gives an identifier to an object : the one that had it before loses it
+func (m *EObjectIDManagerImpl) setObject(id string, eObject EObject) {
+	if other, isUsed := m.idToObject[id]; isUsed && other != eObject {
+		delete(m.objectToID, other)
+	}
+	m.idToObject[id] = eObject
+}
+
 func (m *EObjectIDManagerImpl) SetID(eObject EObject, id any) error {
 	if id == nil {
 		id = ""
@@ -57,7 +66,7 @@ func (m *EObjectIDManagerImpl) SetID(eObject EObject, id any) error {
 		}
 
 		if len(newID) > 0 {
-			m.idToObject[newID] = eObject
+			m.setObject(newID, eObject)
 		}
 		return nil
 	}
diff --git a/ecore/uniqueidmanager.go b/ecore/uniqueidmanager.go
index a2abdd0..3427fcf 100644
--- a/ecore/uniqueidmanager.go
+++ b/ecore/uniqueidmanager.go
@@ -46,8 +46,14 @@ func (m *UniqueIDManager[ID]) setObjectID(eObject EObject, newID ID) {
 		delete(m.idToObject, oldID)
 	}
 
+	delete(m.detachedToID, m.getPointer(eObject))
+
 	if m.isValidID(newID) {
 		m.setID(newID)
+		// the object that had this identifier before loses it
+		if other, isUsed := m.idToObject[newID]; isUsed && other != eObject {
+			delete(m.objectToID, other)
+		}
 		m.objectToID[eObject] = newID
 		m.idToObject[newID] = eObject
 	} else {
@@ -65,8 +71,10 @@ func (m *UniqueIDManager[ID]) Register(eObject EObject) {
 		ptr := m.getPointer(eObject)
 		newID, isOldID := m.detachedToID[ptr]
 		if isOldID {
-			delete(m.detachedToID, ptr)
-		} else {
+			_, isUsed := m.idToObject[newID]
+			isOldID = !isUsed
+		}
+		if !isOldID {
 			newID = m.newID()
 		}
 		m.setObjectID(eObject, newID)
-- 
2.43.0


From 01209f9628490cbaec743987168fb20f21869053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:01 +0000
Subject: [PATCH 21/69] fix: fragments of model elements with awkward names or
 of annotations designated nothing or panicked

---
 ecore/emodelelement_ext.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/ecore/emodelelement_ext.go b/ecore/emodelelement_ext.go
index 1d03f17..2e949d9 100644
--- a/ecore/emodelelement_ext.go
+++ b/ecore/emodelelement_ext.go
@@ -51,7 +51,7 @@ func (eModelElement *EModelElementExt) EObjectForFragmentSegment(uriFragmentSegm
 				index := strings.LastIndex(uriFragmentSegment, "%")
 				hasCount := false
 				if index != 0 {
-					hasCount = uriFragmentSegment[index+1] == '.'
+					hasCount = strings.HasPrefix(uriFragmentSegment[index+1:], ".")
 					if index == len(uriFragmentSegment)-1 || hasCount {
 
 						// DecodeResource all encoded characters.
@@ -106,7 +106,11 @@ func (eModelElement *EModelElementExt) EObjectForFragmentSegment(uriFragmentSegm
 			if name == "%" {
 				name = ""
 			} else {
-				name = url.PathEscape(name)
+				unescaped, err := url.PathUnescape(name)
+				if err != nil {
+					return nil
+				}
+				name = unescaped
 			}
 
 			for it := eModelElement.AsEObject().EContents().Iterator(); it.HasNext(); {
@@ -127,6 +131,20 @@ func (eModelElement *EModelElementExt) EObjectForFragmentSegment(uriFragmentSegm
 	return eModelElement.EModelElementImpl.EObjectForFragmentSegment(uriFragmentSegment)
 }
 
+// escapeNameSegment escapes a name so that it is not taken for a feature segment or a name followed by a count
+func escapeNameSegment(name string) string {
+	name = url.PathEscape(name)
+	if name[0] == '@' {
+		name = url.QueryEscape("@") + name[1:]
+	}
+	if index := strings.LastIndex(name, "."); index != -1 {
+		if _, err := strconv.Atoi(name[index+1:]); err == nil {
+			name = name[:index] + "%2E" + name[index+1:]
+		}
+	}
+	return name
+}
+
 func (eModelElement *EModelElementExt) EURIFragmentSegment(feature EStructuralFeature, object EObject) string {
 	eNamedElement, _ := object.(ENamedElement)
 	if eNamedElement != nil {
@@ -148,7 +166,7 @@ func (eModelElement *EModelElementExt) EURIFragmentSegment(feature EStructuralFe
 		if len(name) == 0 {
 			name = "%"
 		} else {
-			name = url.PathEscape(name)
+			name = escapeNameSegment(name)
 		}
 		if count > 0 {
 			return name + "." + fmt.Sprintf("%d", count)
-- 
2.43.0


From e1b31d74267210d6d2a8272e9ea8613855ca78a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:01 +0000
Subject: [PATCH 22/69] fix: fragments that designate nothing panicked or gave
 another object

---
 ecore/abstracteobject.go | 37 +++++++++++++++----------------------
 ecore/ecoreutils.go      | 14 ++++++++++----
 ecore/eresource_impl.go  | 21 +++++++++++++++++----
 3 files changed, 42 insertions(+), 30 deletions(-)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index 8d963a6..61917e9 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -12,8 +12,6 @@ package ecore
 import (
 	"strconv"
 	"strings"
-	"unicode"
-	"unicode/utf8"
 )
 
 // AbstractEObject is a basic implementation of an EObject
@@ -925,30 +923,25 @@ func (o *AbstractEObject) eStructuralFeature(featureName string) EStructuralFeat
 }
 
 func (o *AbstractEObject) EObjectForFragmentSegment(uriSegment string) EObject {
-
-	lastIndex := len(uriSegment) - 1
-	if lastIndex == -1 || uriSegment[0] != '@' {
-		panic("Expecting @ at index 0 of '" + uriSegment + "'")
-	}
-
-	index := -1
-	r, _ := utf8.DecodeLastRuneInString(uriSegment)
-	if unicode.IsDigit(r) {
-		if index = strings.LastIndex(uriSegment, "."); index != -1 {
-			pos, _ := strconv.Atoi(uriSegment[index+1:])
-			eFeatureName := uriSegment[1:index]
-			eFeature := o.eStructuralFeature(eFeatureName)
-			list, _ := o.AsEObject().EGetResolve(eFeature, false).(EList)
-			if list != nil && pos < list.Size() {
-				return list.Get(pos).(EObject)
-			}
-		}
+	if len(uriSegment) == 0 || uriSegment[0] != '@' {
+		return nil
 	}
-	if index == -1 {
-		eFeature := o.eStructuralFeature(uriSegment[1:])
+	eClass := o.AsEObject().EClass()
+	if eFeature := eClass.GetEStructuralFeatureFromName(uriSegment[1:]); eFeature != nil {
 		eObject, _ := o.AsEObject().EGetResolve(eFeature, false).(EObject)
 		return eObject
 	}
+	if index := strings.LastIndex(uriSegment, "."); index != -1 {
+		if pos, err := strconv.Atoi(uriSegment[index+1:]); err == nil {
+			if eFeature := eClass.GetEStructuralFeatureFromName(uriSegment[1:index]); eFeature != nil {
+				list, _ := o.AsEObject().EGetResolve(eFeature, false).(EList)
+				if list != nil && pos >= 0 && pos < list.Size() {
+					eObject, _ := list.Get(pos).(EObject)
+					return eObject
+				}
+			}
+		}
+	}
 	return nil
 }
 
diff --git a/ecore/ecoreutils.go b/ecore/ecoreutils.go
index 6f6272d..57b3621 100644
--- a/ecore/ecoreutils.go
+++ b/ecore/ecoreutils.go
@@ -94,10 +94,16 @@ func getRelativeURIFragmentPath(ancestor EObject, descendant EObject, _ bool) st
 }
 
 func GetEObject(rootEObject EObject, relativeFragmentPath string) EObject {
-	segments := strings.Split(relativeFragmentPath, "/")
-	eObject := rootEObject.(EObjectInternal)
-	for i := 0; i < len(segments) && eObject != nil; i++ {
-		eObject = eObject.EObjectForFragmentSegment(segments[i]).(EObjectInternal)
+	if len(relativeFragmentPath) == 0 {
+		return rootEObject
+	}
+	eObject := rootEObject
+	for _, segment := range strings.Split(relativeFragmentPath, "/") {
+		internalEObject, _ := eObject.(EObjectInternal)
+		if internalEObject == nil {
+			return nil
+		}
+		eObject = internalEObject.EObjectForFragmentSegment(segment)
 	}
 	return eObject
 }
diff --git a/ecore/eresource_impl.go b/ecore/eresource_impl.go
index edd07eb..ca37643 100644
--- a/ecore/eresource_impl.go
+++ b/ecore/eresource_impl.go
@@ -243,7 +243,7 @@ func (r *EResourceImpl) GetEObject(uriFragment string) EObject {
 			path = path[1:]
 			return r.getObjectByPath(path)
 		} else if uriFragment[size-1] == '?' {
-			if index := strings.LastIndex(uriFragment[:size-2], "?"); index != -1 {
+			if index := strings.LastIndex(uriFragment[:size-1], "?"); index != -1 {
 				id = uriFragment[:index]
 			}
 		}
@@ -309,8 +309,18 @@ func (r *EResourceImpl) getIDForObject(eObject EObject) string {
 }
 
 func (r *EResourceImpl) getObjectByID(id string) EObject {
+	if len(id) == 0 {
+		return nil
+	}
+	var registered EObject
 	if r.objectIDManager != nil {
-		return r.objectIDManager.GetEObject(id)
+		registered = r.objectIDManager.GetEObject(id)
+		if registered != nil {
+			// the fragment of an object with an id attribute is its value
+			if objectID := GetEObjectID(registered); len(objectID) == 0 || objectID == id {
+				return registered
+			}
+		}
 	}
 	for it := r.getAllContentsResolve(r.GetInterfaces(), false); it.HasNext(); {
 		eObject := it.Next().(EObject)
@@ -319,7 +329,7 @@ func (r *EResourceImpl) getObjectByID(id string) EObject {
 			return eObject
 		}
 	}
-	return nil
+	return registered
 }
 
 func (r *EResourceImpl) getObjectByPath(uriFragmentPath []string) EObject {
@@ -341,7 +351,10 @@ func (r *EResourceImpl) getObjectForRootSegment(rootSegment string) EObject {
 		if rootSegment[0] == '?' {
 			return r.getObjectByID(rootSegment[1:])
 		} else {
-			position, _ = strconv.Atoi(rootSegment)
+			var err error
+			if position, err = strconv.Atoi(rootSegment); err != nil {
+				return nil
+			}
 		}
 	}
 	if position >= 0 && position < r.GetContents().Size() {
-- 
2.43.0


From 18b87bfdb6b4782f1c1c345189dcf09f7e527404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 23/69] fix: a copy lost its inherited cross references

---
 ecore/deepcopy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/deepcopy.go b/ecore/deepcopy.go
index 579ee00..708a62f 100644
--- a/ecore/deepcopy.go
+++ b/ecore/deepcopy.go
@@ -90,7 +90,7 @@ func (dC *deepCopy) copyContainment(eReference EReference, eObject EObject, copy
 
 func (dC *deepCopy) copyReferences() {
 	for eObject, copyEObject := range dC.objects {
-		for it := eObject.EClass().GetEReferences().Iterator(); it.HasNext(); {
+		for it := eObject.EClass().GetEAllReferences().Iterator(); it.HasNext(); {
 			eReference := it.Next().(EReference)
 			if eReference.IsChangeable() && !eReference.IsDerived() && !eReference.IsContainment() && !eReference.IsContainer() {
 				dC.copyReference(eReference, eObject, copyEObject)
-- 
2.43.0


From a0bc912a221c96dc894479cfe16bd2b9bb3085e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 24/69] fix: structural equality ignored inherited features

Containers are left out: a copied object has none (and compares equal to its
original, as before).
---
 ecore/deepequal.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ecore/deepequal.go b/ecore/deepequal.go
index 5164919..121d2b8 100644
--- a/ecore/deepequal.go
+++ b/ecore/deepequal.go
@@ -84,8 +84,13 @@ func (dE *deepEqual) equals(eObj1 EObject, eObj2 EObject) bool {
 	dE.objects[eObj1] = eObj2
 	dE.objects[eObj2] = eObj1
 
-	for it := eClass.GetEStructuralFeatures().Iterator(); it.HasNext(); {
-		if eFeature := it.Next().(EStructuralFeature); !eFeature.IsDerived() && !dE.equalsFeature(eObj1, eObj2, eFeature) {
+	for it := eClass.GetEAllStructuralFeatures().Iterator(); it.HasNext(); {
+		eFeature := it.Next().(EStructuralFeature)
+		// containers are not part of what an object holds: a copy has no container
+		if eReference, _ := eFeature.(EReference); eReference != nil && eReference.IsContainer() {
+			continue
+		}
+		if !eFeature.IsDerived() && !dE.equalsFeature(eObj1, eObj2, eFeature) {
 			delete(dE.objects, eObj1)
 			delete(dE.objects, eObj2)
 			return false
-- 
2.43.0


From aa5e3ec18253940c3cb3210178a2ebe9936c6330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 25/69] fix: contents by class left out objects

References whose class leads to the searched one through a cycle, the
searched class itself and its subclasses were not followed, and an empty
reference ended the search in an object although others were left to visit.
---
 ecore/eallcontents.go | 136 ++++++++++++++++--------------------------
 1 file changed, 53 insertions(+), 83 deletions(-)

diff --git a/ecore/eallcontents.go b/ecore/eallcontents.go
index f58f81f..c840a1b 100644
--- a/ecore/eallcontents.go
+++ b/ecore/eallcontents.go
@@ -25,16 +25,6 @@ func (ts transitions) addTransition(transition *transition) transitions {
 	return append(ts, transition)
 }
 
-func (ts transitions) removeTransition(transition *transition) transitions {
-	for i, t := range ts {
-		if t == transition || *t == *transition {
-			ts[i] = ts[len(ts)-1]
-			return ts[:len(ts)-1]
-		}
-	}
-	return ts
-}
-
 type EClassTransitionsTable struct {
 	transitionsMap map[EClass]transitions
 	endSet         map[EClass]struct{}
@@ -47,28 +37,10 @@ func newEClassTransitionsTable() *EClassTransitionsTable {
 	}
 }
 
-func (table *EClassTransitionsTable) union(other *EClassTransitionsTable) *EClassTransitionsTable {
-	for _, transitions := range other.transitionsMap {
-		for _, transition := range transitions {
-			table.addTransition(transition)
-		}
-	}
-	for eClass := range other.endSet {
-		table.setIsEnd(eClass)
-	}
-	return table
-}
-
 func (table *EClassTransitionsTable) addTransition(t *transition) {
 	table.transitionsMap[t.source] = table.transitionsMap[t.source].addTransition(t)
 }
 
-func (table *EClassTransitionsTable) removeTransition(t *transition) {
-	if tableTransitions, isTransitions := table.transitionsMap[t.source]; isTransitions {
-		table.transitionsMap[t.source] = tableTransitions.removeTransition(t)
-	}
-}
-
 func (table *EClassTransitionsTable) getTransitions(eClass EClass) []*transition {
 	if tableTransitions, isTransitions := table.transitionsMap[eClass]; isTransitions {
 		return tableTransitions
@@ -76,11 +48,6 @@ func (table *EClassTransitionsTable) getTransitions(eClass EClass) []*transition
 	return nil
 }
 
-func (table *EClassTransitionsTable) contains(source EClass) bool {
-	_, isTransitions := table.transitionsMap[source]
-	return isTransitions
-}
-
 func (table *EClassTransitionsTable) setIsEnd(eClass EClass) {
 	table.endSet[eClass] = struct{}{}
 }
@@ -90,50 +57,55 @@ func (table *EClassTransitionsTable) isEnd(eClass EClass) bool {
 	return isEnd
 }
 
+// NewEClassTransitionsTable computes the containment references that lead from startClass to endClass
 func NewEClassTransitionsTable(startClass EClass, endClass EClass) *EClassTransitionsTable {
-	resultTable := newEClassTransitionsTable()
-	if startClass != endClass {
-		computeTransitionTableForState(startClass, endClass, newEClassTransitionsTable(), resultTable)
+	// all transitions from the classes that startClass leads to
+	all := []*transition{}
+	visited := map[EClass]struct{}{startClass: {}}
+	for classes := []EClass{startClass}; len(classes) > 0; classes = classes[1:] {
+		source := classes[0]
+		for it := source.GetEContainmentFeatures().Iterator(); it.HasNext(); {
+			if reference, _ := it.Next().(EReference); reference != nil {
+				target := reference.GetEReferenceType()
+				all = append(all, &transition{source: source, target: target, reference: reference})
+				if _, isVisited := visited[target]; !isVisited {
+					visited[target] = struct{}{}
+					classes = append(classes, target)
+				}
+			}
+		}
 	}
-	return resultTable
-}
 
-func computeTransitionTableForState(eClass EClass, endClass EClass, currentTable *EClassTransitionsTable, resultTable *EClassTransitionsTable) {
-	for itFeature := eClass.GetEContainmentFeatures().Iterator(); itFeature.HasNext(); {
-		reference, _ := itFeature.Next().(EReference)
-		if reference != nil {
-			computeTransitionTableForReference(eClass, reference, endClass, currentTable, resultTable)
+	// classes that are or lead to endClass
+	leads := map[EClass]struct{}{}
+	for class := range visited {
+		if endClass.IsSuperTypeOf(class) {
+			leads[class] = struct{}{}
 		}
 	}
-}
-
-func computeTransitionTableForReference(sourceClass EClass, reference EReference, endClass EClass, currentTable *EClassTransitionsTable, resultTable *EClassTransitionsTable) {
-	targetClass := reference.GetEReferenceType()
-	transition := &transition{source: sourceClass, target: targetClass, reference: reference}
-
-	if targetClass == endClass {
-		// end
-		// add current to result table
-		resultTable.setIsEnd(targetClass)
-		resultTable.union(currentTable)
-		resultTable.addTransition(transition)
+	for changed := true; changed; {
+		changed = false
+		for _, t := range all {
+			if _, isLeading := leads[t.target]; isLeading {
+				if _, isLeading := leads[t.source]; !isLeading {
+					leads[t.source] = struct{}{}
+					changed = true
+				}
+			}
+		}
 	}
 
-	if currentTable.contains(targetClass) {
-		// cycle
-		// check if target is in result and add the current
-		// transition table to keep track of this cycle
-		if resultTable.contains(targetClass) {
-			resultTable.union(currentTable)
-			resultTable.addTransition(transition)
+	// keep the transitions that lead to endClass
+	resultTable := newEClassTransitionsTable()
+	for _, t := range all {
+		if _, isLeading := leads[t.target]; isLeading {
+			resultTable.addTransition(t)
+			if endClass.IsSuperTypeOf(t.target) {
+				resultTable.setIsEnd(t.target)
+			}
 		}
-		return
 	}
-
-	currentTable.addTransition(transition)
-	computeTransitionTableForState(targetClass, endClass, currentTable, resultTable)
-	currentTable.removeTransition(transition)
-
+	return resultTable
 }
 
 type data struct {
@@ -203,26 +175,24 @@ func (it *eAllContentsWithClassIterator) findNext() any {
 	for len(it.data) != 0 {
 		d := it.data[len(it.data)-1]
 
-		if d.iterator == nil || !d.iterator.HasNext() {
+		if d.transitions == nil {
 			// retrieve state transitions
-			if d.transitions == nil {
-				if transitions := it.table.getTransitions(d.eClass); transitions != nil {
-					d.transitions = transitions
-				} else {
-					d.transitions = notransitions
-				}
-			}
-			// compute current and remaining transition
-			if len(d.transitions) != 0 {
-				last := len(d.transitions) - 1
-				d.transition = d.transitions[last]
-				d.transitions = d.transitions[:last]
+			if transitions := it.table.getTransitions(d.eClass); transitions != nil {
+				d.transitions = transitions
 			} else {
-				d.transition = nil
+				d.transitions = notransitions
 			}
+		}
+
+		// move to the next transition that has values
+		for (d.iterator == nil || !d.iterator.HasNext()) && len(d.transitions) != 0 {
+			// compute current and remaining transition
+			last := len(d.transitions) - 1
+			d.transition = d.transitions[last]
+			d.transitions = d.transitions[:last]
 
 			// compute iterator
-			if d.transition != nil && d.eObject.EIsSet(d.transition.reference) {
+			if d.eObject.EIsSet(d.transition.reference) {
 				value := d.eObject.EGet(d.transition.reference)
 				switch v := value.(type) {
 				case EList:
-- 
2.43.0


From 98fd2f999f7e68c0cf32fab2dcd68e1a46d9bcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:42 +0000
Subject: [PATCH 26/69] fix: URIs did not follow RFC 3986 when parsed, rebuilt,
 resolved, relativized or given a new prefix

---
 ecore/uri.go | 208 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 115 insertions(+), 93 deletions(-)

diff --git a/ecore/uri.go b/ecore/uri.go
index 0e431a0..56ea952 100644
--- a/ecore/uri.go
+++ b/ecore/uri.go
@@ -119,17 +119,6 @@ type URI struct {
 	rawURI   string
 }
 
-const (
-	schemeComponent = iota
-	usernameComponent
-	passwordComponent
-	hostComponent
-	portComponent
-	pathComponent
-	queryComponent
-	fragmentComponent
-)
-
 var uriCache *weak.Map[string, URI]
 
 func getURICache() *weak.Map[string, URI] {
@@ -139,42 +128,48 @@ func getURICache() *weak.Map[string, URI] {
 	return uriCache
 }
 
+// characters that have to be escaped in the text of a component so that the component can be found again
+var (
+	userEscaper     = strings.NewReplacer("%", "%25", ":", "%3A", "@", "%40", "/", "%2F", "?", "%3F", "#", "%23")
+	hostEscaper     = strings.NewReplacer("%", "%25")
+	pathEscaper     = strings.NewReplacer("%", "%25", "?", "%3F", "#", "%23")
+	queryEscaper    = strings.NewReplacer("#", "%23")
+	fragmentEscaper = strings.NewReplacer("%", "%25")
+)
+
 func NewURIFromComponents(scheme string, username string, password string, host string, port string, path string, query string, fragment string) *URI {
+	query = queryEscaper.Replace(query)
+
 	var s strings.Builder
-	indexes := [8][2]int{}
-	writeComponent := func(Component int, str string) {
-		indexes[Component][0] = s.Len()
-		s.WriteString(str)
-		indexes[Component][1] = s.Len()
-	}
 	if len(scheme) > 0 {
-		writeComponent(schemeComponent, scheme)
+		s.WriteString(scheme)
 		s.WriteRune(':')
 	}
-	if len(username) > 0 || len(password) > 0 || len(host) > 0 || len(port) > 0 {
+	// a path that starts with two slashes is told from an authority by an empty one
+	if len(username) > 0 || len(password) > 0 || len(host) > 0 || len(port) > 0 || strings.HasPrefix(path, "//") {
 		s.WriteString("//")
 		if len(username) > 0 || len(password) > 0 {
-			writeComponent(usernameComponent, username)
+			s.WriteString(userEscaper.Replace(username))
 			if len(password) > 0 {
 				s.WriteRune(':')
-				writeComponent(passwordComponent, password)
+				s.WriteString(userEscaper.Replace(password))
 			}
 			s.WriteRune('@')
 		}
-		writeComponent(hostComponent, host)
+		s.WriteString(hostEscaper.Replace(host))
 		if len(port) > 0 {
 			s.WriteRune(':')
-			writeComponent(portComponent, port)
+			s.WriteString(port)
 		}
 	}
-	writeComponent(pathComponent, path)
+	s.WriteString(pathEscaper.Replace(path))
 	if len(query) > 0 {
 		s.WriteRune('?')
-		writeComponent(queryComponent, query)
+		s.WriteString(query)
 	}
 	if len(fragment) > 0 {
 		s.WriteRune('#')
-		writeComponent(fragmentComponent, fragment)
+		s.WriteString(fragmentEscaper.Replace(fragment))
 	}
 	rawURI := s.String()
 
@@ -183,18 +178,15 @@ func NewURIFromComponents(scheme string, username string, password string, host
 	uri := cache.Get(rawURI)
 	if uri == nil {
 		// uri doesn't exists - build & register it
-		getComponent := func(c int) string {
-			return rawURI[indexes[c][0]:indexes[c][1]]
-		}
 		uri = &URI{
-			scheme:   getComponent(schemeComponent),
-			username: getComponent(usernameComponent),
-			password: getComponent(passwordComponent),
-			host:     getComponent(hostComponent),
-			port:     getComponent(portComponent),
-			path:     getComponent(pathComponent),
-			query:    getComponent(queryComponent),
-			fragment: getComponent(fragmentComponent),
+			scheme:   scheme,
+			username: username,
+			password: password,
+			host:     host,
+			port:     port,
+			path:     path,
+			query:    query,
+			fragment: fragment,
 			rawURI:   rawURI,
 		}
 		cache.Set(rawURI, uri)
@@ -219,14 +211,18 @@ func ParseURI(rawURI string) (*URI, error) {
 				uri.username = url.User.Username()
 				uri.password, _ = url.User.Password()
 			}
-			if i := strings.IndexByte(url.Host, ':'); i >= 0 {
+			// the host may be an IP literal between brackets
+			if i := strings.LastIndexByte(url.Host, ':'); i > strings.LastIndexByte(url.Host, ']') {
 				uri.host = url.Host[0:i]
 				uri.port = url.Host[i+1:]
 			} else {
 				uri.host = url.Host
 			}
 			if len(url.Opaque) > 0 {
-				uri.path = url.Opaque
+				uri.path = unescapePath(url.Opaque)
+			} else if len(url.Scheme) == 0 && strings.HasPrefix(rawURI, "///") {
+				// the authority is empty
+				uri.path = uri.path[2:]
 			}
 			cache.Set(rawURI, uri)
 		}
@@ -234,6 +230,13 @@ func ParseURI(rawURI string) (*URI, error) {
 	return uri, nil
 }
 
+func unescapePath(path string) string {
+	if unescaped, err := url.PathUnescape(path); err == nil {
+		return unescaped
+	}
+	return path
+}
+
 func (uri *URI) Scheme() string {
 	return uri.scheme
 }
@@ -284,18 +287,21 @@ func (uri *URI) Authority() string {
 	if len(uri.host) == 0 {
 		return ""
 	}
-	hostIndex := strings.Index(uri.rawURI, uri.host)
-	var first int
-	if len(uri.username) > 0 {
-		first = strings.Index(uri.rawURI, uri.username)
-	} else {
-		first = hostIndex
+	var s strings.Builder
+	if len(uri.username) > 0 || len(uri.password) > 0 {
+		s.WriteString(uri.username)
+		if len(uri.password) > 0 {
+			s.WriteRune(':')
+			s.WriteString(uri.password)
+		}
+		s.WriteRune('@')
 	}
-	last := hostIndex + len(uri.host)
+	s.WriteString(uri.host)
 	if len(uri.port) > 0 {
-		last += len(uri.port) + 1
+		s.WriteRune(':')
+		s.WriteString(uri.port)
 	}
-	return uri.rawURI[first:last]
+	return s.String()
 }
 
 func (uri *URI) String() string {
@@ -324,37 +330,43 @@ func (uri *URI) Normalize() *URI {
 	)
 }
 
+// Resolve resolves ref against uri (RFC 3986 5.2)
 func (uri *URI) Resolve(ref *URI) *URI {
-	// check if opaque first
-	if ref.IsOpaque() || uri.IsOpaque() {
+	// ref is absolute
+	if len(ref.scheme) != 0 {
 		return ref
 	}
 
-	// Reference to current document (lone fragment)
-	refAuthority := ref.Authority()
-	if len(ref.scheme) == 0 && len(refAuthority) == 0 && len(ref.path) == 0 && len(ref.fragment) != 0 && len(ref.query) == 0 {
-		if len(uri.fragment) == 0 && ref.fragment == uri.fragment {
-			return uri
-		}
-		return NewURIFromComponents(uri.scheme, uri.username, uri.password, uri.host, uri.port, uri.path, uri.query, ref.fragment)
+	// ref has an authority
+	if ref.hasAuthority() {
+		return NewURIFromComponents(uri.scheme, ref.username, ref.password, ref.host, ref.port, ref.path, ref.query, ref.fragment)
 	}
 
-	// ref is absolute
-	if len(ref.scheme) != 0 {
-		return ref
+	// reference to the current document
+	if len(ref.path) == 0 {
+		query := ref.query
+		if len(query) == 0 {
+			query = uri.query
+		}
+		if query == uri.query && ref.fragment == uri.fragment {
+			return uri
+		}
+		return NewURIFromComponents(uri.scheme, uri.username, uri.password, uri.host, uri.port, uri.path, query, ref.fragment)
 	}
 
-	// no authority
-	if len(refAuthority) == 0 {
-		path := ref.path
-		if len(ref.path) == 0 || ref.path[0] != '/' {
-			path = resolvePath(uri.path, ref.path, uri.IsAbsolute())
+	path := ref.path
+	if path[0] != '/' {
+		base := uri.path
+		if len(base) == 0 && uri.hasAuthority() {
+			base = "/"
 		}
-		return NewURIFromComponents(uri.scheme, uri.username, uri.password, uri.host, uri.port, path, ref.query, ref.fragment)
+		path = resolvePath(base, path)
 	}
-	return NewURIFromComponents(uri.scheme, ref.username, ref.password, ref.host, ref.port, ref.path, ref.query, ref.fragment)
+	return NewURIFromComponents(uri.scheme, uri.username, uri.password, uri.host, uri.port, path, ref.query, ref.fragment)
 }
 
+// Relativize returns a reference that gives ref when it is resolved against uri,
+// ref itself if there is no shorter one
 func (uri *URI) Relativize(ref *URI) *URI {
 	// check if opaque
 	if ref.IsOpaque() || uri.IsOpaque() {
@@ -365,19 +377,42 @@ func (uri *URI) Relativize(ref *URI) *URI {
 		return ref
 	}
 
-	bp := normalize(uri.path)
-	cp := normalize(ref.path)
-	if bp != cp {
-		if !strings.HasSuffix(bp, "/") {
-			i := strings.LastIndexByte(bp, '/')
-			bp = bp[0 : i+1]
-		}
+	bp := strings.TrimPrefix(normalize(uri.path), "./")
+	cp := strings.TrimPrefix(normalize(ref.path), "./")
+	if strings.HasPrefix(bp, "/") != strings.HasPrefix(cp, "/") {
+		return ref
+	}
 
-		if !strings.HasPrefix(cp, bp) {
-			return ref
+	path := ""
+	if bp != cp || len(ref.query) == 0 && len(uri.query) != 0 {
+		dir := bp[:strings.LastIndexByte(bp, '/')+1]
+		up := ""
+		if !strings.HasPrefix(cp, dir) {
+			if len(uri.scheme) != 0 || uri.hasAuthority() || strings.HasPrefix(cp, "/") {
+				return ref
+			}
+			// paths are relative: ref can't be resolved, get out of the directories of uri
+			for !strings.HasPrefix(cp, dir) {
+				dir = dir[:len(dir)-1]
+				last := strings.LastIndexByte(dir, '/') + 1
+				if dir[last:] == ".." {
+					return ref
+				}
+				dir = dir[:last]
+				up += "../"
+			}
+		}
+		path = up + cp[len(dir):]
+		// a path can't be empty and can't start with something like a scheme
+		if first, _, _ := strings.Cut(path, "/"); len(path) == 0 || len(first) == 0 || strings.Contains(first, ":") {
+			path = "./" + path
 		}
 	}
-	return NewURIFromComponents("", "", "", "", "", cp[len(bp):], ref.query, ref.fragment)
+	return NewURIFromComponents("", "", "", "", "", path, ref.query, ref.fragment)
+}
+
+func (uri *URI) hasAuthority() bool {
+	return len(uri.username) > 0 || len(uri.password) > 0 || len(uri.host) > 0 || len(uri.port) > 0
 }
 
 func (uri *URI) TrimFragment() *URI {
@@ -415,7 +450,7 @@ func (uri *URI) ReplacePrefix(oldPrefix *URI, newPrefix *URI) *URI {
 		return nil
 	}
 	if oldLen := len(oldPrefix.path); len(uri.path) >= oldLen && uri.path[0:oldLen] == oldPrefix.path {
-		return NewURIFromComponents(newPrefix.scheme, uri.username, uri.password, uri.host, uri.port, newPrefix.path+uri.path[oldLen:], uri.query, uri.fragment)
+		return NewURIFromComponents(newPrefix.scheme, newPrefix.username, newPrefix.password, newPrefix.host, newPrefix.port, newPrefix.path+uri.path[oldLen:], uri.query, uri.fragment)
 	}
 	return nil
 
@@ -724,21 +759,8 @@ func join(path []rune, segs []int) int {
 	return p
 }
 
-func resolvePath(base string, child string, _ bool) string {
-	i := strings.LastIndexByte(base, '/')
-	cn := len(child)
-	var path string
-	if cn == 0 {
-		if i >= 0 {
-			path = base[0 : i+1]
-		}
-	} else {
-		if i >= 0 {
-			path = path + base[0:i+1]
-		}
-		path = path + child
-	}
-	return normalize(path)
+func resolvePath(base string, child string) string {
+	return normalize(base[:strings.LastIndexByte(base, '/')+1] + child)
 }
 
 func CreateFileURI(path string) *URI {
-- 
2.43.0


From f1a5e11f372cf3fc1d0ef3604929ef0b2ff5d69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:12 +0000
Subject: [PATCH 27/69] fix: dates lost their time zone and precision in text,
 byte arrays of dynamic packages had no text

---
 ecore/ecorefactory_impl.go | 4 ++--
 ecore/efactory_ext.go      | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/ecore/ecorefactory_impl.go b/ecore/ecorefactory_impl.go
index 4edba4b..27e4590 100644
--- a/ecore/ecorefactory_impl.go
+++ b/ecore/ecorefactory_impl.go
@@ -534,7 +534,7 @@ func (ecoreFactoryImpl *EcoreFactoryImpl) convertECharacterObjectToString(eDataT
 }
 
 const (
-	dateFormat string = "2006-01-02T15:04:05.999Z"
+	dateFormat string = "2006-01-02T15:04:05.999999999Z"
 )
 
 func (ecoreFactoryImpl *EcoreFactoryImpl) createEDateFromString(eDataType EDataType, literalValue string) any {
@@ -544,7 +544,7 @@ func (ecoreFactoryImpl *EcoreFactoryImpl) createEDateFromString(eDataType EDataT
 
 func (ecoreFactoryImpl *EcoreFactoryImpl) convertEDateToString(eDataType EDataType, instanceValue any) string {
 	t, _ := instanceValue.(*time.Time)
-	return t.Format(dateFormat)
+	return t.UTC().Format(dateFormat)
 }
 
 func (ecoreFactoryImpl *EcoreFactoryImpl) createEDoubleFromString(eDataType EDataType, literalValue string) any {
diff --git a/ecore/efactory_ext.go b/ecore/efactory_ext.go
index 6560e81..c472c83 100644
--- a/ecore/efactory_ext.go
+++ b/ecore/efactory_ext.go
@@ -138,6 +138,9 @@ func (eFactory *EFactoryExt) ConvertToString(eDataType EDataType, instanceValue
 		return strconv.FormatBool(v)
 	case "string", "java.lang.String":
 		return instanceValue.(string)
+	case "byte[]", "[]byte":
+		v, _ := instanceValue.([]byte)
+		return string(v)
 	}
 
 	panic("ConvertToString not implemented")
-- 
2.43.0


From 9a5263091a69b8c09f22c1549ceb3398001e8e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 28/69] fix: XML documents lost texts with special characters,
 types, null values, references and all roots but the first

---
 ecore/xmiencoder.go |  14 ++++++
 ecore/xmlencoder.go | 112 ++++++++++++++++++--------------------------
 ecore/xmlstring.go  |   9 +++-
 3 files changed, 67 insertions(+), 68 deletions(-)

diff --git a/ecore/xmiencoder.go b/ecore/xmiencoder.go
index c77511f..03bc562 100644
--- a/ecore/xmiencoder.go
+++ b/ecore/xmiencoder.go
@@ -29,6 +29,20 @@ func (s *XMIEncoder) SetXMIVersion(xmiVersion string) {
 	s.xmiVersion = xmiVersion
 }
 
+func (s *XMIEncoder) encodeTopObjects(eObjects EList) {
+	if eObjects.Size() == 1 {
+		s.XMLEncoder.encodeTopObjects(eObjects)
+		return
+	}
+	s.saveHeader()
+	s.str.startElement(xmiNS + ":" + xmiElement)
+	for it := eObjects.Iterator(); it.HasNext(); {
+		s.saveTopObject(it.Next().(EObject))
+	}
+	s.str.endElement()
+	s.writeDocument()
+}
+
 func (s *XMIEncoder) saveNamespaces() {
 	s.str.addAttribute(xmiNS+":"+versionAttrib, s.xmiVersion)
 	s.str.addAttribute(xmlNS+":"+xmiNS, xmiURI)
diff --git a/ecore/xmlencoder.go b/ecore/xmlencoder.go
index 2a1416a..19a38a8 100644
--- a/ecore/xmlencoder.go
+++ b/ecore/xmlencoder.go
@@ -14,8 +14,7 @@ import (
 	"io"
 	"sort"
 	"strings"
-
-	"golang.org/x/net/html"
+	"unicode/utf8"
 )
 
 type xmlSaveFeatureKind int
@@ -52,6 +51,7 @@ const (
 
 type xmlEncoderInternal interface {
 	saveNamespaces()
+	encodeTopObjects(eObjects EList)
 }
 
 type XMLEncoder struct {
@@ -116,7 +116,11 @@ func (s *XMLEncoder) EncodeResource() {
 	if contents.Empty() {
 		return
 	}
-	s.encodeTopObject(contents.Get(0).(EObject))
+	s.interfaces.(xmlEncoderInternal).encodeTopObjects(contents)
+}
+
+func (s *XMLEncoder) encodeTopObjects(eObjects EList) {
+	s.encodeTopObject(eObjects.Get(0).(EObject))
 }
 
 func (s *XMLEncoder) EncodeObject(eObject EObject) (err error) {
@@ -142,7 +146,10 @@ func (s *XMLEncoder) encodeTopObject(eObject EObject) {
 	}
 
 	s.saveTopObject(eObject)
+	s.writeDocument()
+}
 
+func (s *XMLEncoder) writeDocument() {
 	// namespaces
 	s.str.resetToFirstElementMark()
 	s.interfaces.(xmlEncoderInternal).saveNamespaces()
@@ -365,7 +372,8 @@ func (s *XMLEncoder) saveDataTypeSingle(eObject EObject, eFeature EStructuralFea
 	val := eObject.EGetResolve(eFeature, false)
 	str, ok := s.getDataType(val, eFeature, true)
 	if ok {
-		s.str.addAttribute(s.getFeatureQName(eFeature), html.EscapeString(str))
+		s.checkText(eFeature, str)
+		s.str.addAttribute(s.getFeatureQName(eFeature), str)
 	}
 }
 
@@ -381,59 +389,33 @@ func (s *XMLEncoder) saveDataTypeMany(eObject EObject, eFeature EStructuralFeatu
 			s.str.startElement(name)
 			s.str.addAttribute("xsi:nil", "true")
 			s.str.endEmptyElement()
-			s.uriToPrefixes[xsiURI] = []string{xsiNS}
-			s.prefixesToURI[xsiNS] = xsiURI
+			s.declareXSI()
 		} else {
 			str := f.ConvertToString(d, value)
+			s.checkText(eFeature, str)
 			s.str.addContent(name, str)
 		}
 	}
 }
 
-func (s *XMLEncoder) saveManyEmpty(_ EObject, eFeature EStructuralFeature) {
-	s.str.addAttribute(s.getFeatureQName(eFeature), "")
-}
-
-//lint:ignore U1000 func (*XMLEncoder).saveEObjectSingle is unused
-func (s *XMLEncoder) saveEObjectSingle(eObject EObject, eFeature EStructuralFeature) {
-	value, _ := eObject.EGetResolve(eFeature, false).(EObject)
-	if value != nil {
-		id := s.getHRef(value)
-		s.str.addAttribute(s.getFeatureQName(eFeature), id)
+// checkText reports text that no xml document can hold
+func (s *XMLEncoder) checkText(eFeature EStructuralFeature, text string) {
+	valid := utf8.ValidString(text)
+	for _, r := range text {
+		valid = valid && (r >= 0x20 && r != 0xFFFE && r != 0xFFFF || r == '\t' || r == '\n' || r == '\r')
+	}
+	if !valid {
+		s.error(NewEDiagnosticImpl(fmt.Sprintf("Feature '%v' has a value %q with characters that are not allowed in xml.", eFeature.GetName(), text), s.resource.GetURI().String(), 0, 0))
 	}
 }
 
-//lint:ignore U1000 func (*XMLEncoder).saveEObjectMany is unused
-func (s *XMLEncoder) saveEObjectMany(eObject EObject, eFeature EStructuralFeature) {
-	l := eObject.EGetResolve(eFeature, false).(EList)
-	failure := false
-	var buffer strings.Builder
-	for it := l.Iterator(); ; {
-		value, _ := it.Next().(EObject)
-		if value != nil {
-			id := s.getHRef(value)
-			if id == "" {
-				failure = true
-				if !it.HasNext() {
-					break
-				}
-			} else {
-				buffer.WriteString(id)
-				if it.HasNext() {
-					buffer.WriteString(" ")
-				} else {
-					break
-				}
-			}
-		}
-	}
-	if !failure && buffer.Len() > 0 {
-		s.str.addAttribute(s.getFeatureQName(eFeature), buffer.String())
-	}
+func (s *XMLEncoder) saveManyEmpty(_ EObject, eFeature EStructuralFeature) {
+	s.str.addAttribute(s.getFeatureQName(eFeature), "")
 }
 
 func (s *XMLEncoder) saveNil(_ EObject, eFeature EStructuralFeature) {
 	s.str.addNil(s.getFeatureQName(eFeature))
+	s.declareXSI()
 }
 
 func (s *XMLEncoder) saveContainedSingle(eObject EObject, eFeature EStructuralFeature) {
@@ -465,7 +447,7 @@ func (s *XMLEncoder) saveEObject(o EObject, f EStructuralFeature) {
 	s.str.startElement(s.getFeatureQName(f))
 	eClass := o.EClass()
 	eType := f.GetEType()
-	if eType != eClass && eType != GetPackage().GetEObject() {
+	if eType != eClass {
 		s.saveTypeAttribute(eClass)
 	}
 	s.saveElementID(o)
@@ -474,6 +456,10 @@ func (s *XMLEncoder) saveEObject(o EObject, f EStructuralFeature) {
 
 func (s *XMLEncoder) saveTypeAttribute(eClass EClass) {
 	s.str.addAttribute("xsi:type", s.getClassQName(eClass))
+	s.declareXSI()
+}
+
+func (s *XMLEncoder) declareXSI() {
 	s.uriToPrefixes[xsiURI] = []string{xsiNS}
 	s.prefixesToURI[xsiNS] = xsiURI
 }
@@ -521,29 +507,16 @@ func (s *XMLEncoder) saveIDRefSingle(eObject EObject, eFeature EStructuralFeatur
 
 func (s *XMLEncoder) saveIDRefMany(eObject EObject, eFeature EStructuralFeature) {
 	l := eObject.EGetResolve(eFeature, false).(EList)
-	failure := false
-	var buffer strings.Builder
-	for it := l.Iterator(); ; {
-		value, _ := it.Next().(EObject)
-		if value != nil {
-			id := s.getIDRef(value)
-			if id == "" {
-				failure = true
-				if !it.HasNext() {
-					break
-				}
-			} else {
-				buffer.WriteString(id)
-				if it.HasNext() {
-					buffer.WriteString(" ")
-				} else {
-					break
-				}
+	ids := []string{}
+	for it := l.Iterator(); it.HasNext(); {
+		if value, _ := it.Next().(EObject); value != nil {
+			if id := s.getIDRef(value); id != "" {
+				ids = append(ids, id)
 			}
 		}
 	}
-	if !failure && buffer.Len() > 0 {
-		s.str.addAttribute(s.getFeatureQName(eFeature), buffer.String())
+	if len(ids) > 0 {
+		s.str.addAttribute(s.getFeatureQName(eFeature), strings.Join(ids, " "))
 	}
 }
 
@@ -719,8 +692,11 @@ func (s *XMLEncoder) getPrefix(ePackage EPackage, mustHavePrefix bool) string {
 
 			if uri, exists := s.prefixesToURI[nsPrefix]; exists && uri != nsURI {
 				index := 1
-				for _, exists = s.prefixesToURI[nsPrefix+"_"+fmt.Sprintf("%d", index)]; exists; {
-					index++
+				for ; ; index++ {
+					uri, exists := s.prefixesToURI[nsPrefix+"_"+fmt.Sprintf("%d", index)]
+					if !exists || uri == nsURI {
+						break
+					}
 				}
 				nsPrefix += "_" + fmt.Sprintf("%d", index)
 			}
@@ -796,6 +772,10 @@ func (s *XMLEncoder) getIDRef(eObject EObject) string {
 	if s.resource == nil {
 		return ""
 	} else {
+		if eObject.EResource() == nil && (s.resource.GetObjectIDManager() == nil || s.resource.GetObjectIDManager().GetID(eObject) == nil) {
+			s.handleDanglingHREF(eObject)
+			return ""
+		}
 		return "#" + s.resource.GetURIFragment(eObject)
 	}
 }
diff --git a/ecore/xmlstring.go b/ecore/xmlstring.go
index bfeadfc..d33bf33 100644
--- a/ecore/xmlstring.go
+++ b/ecore/xmlstring.go
@@ -22,6 +22,11 @@ type xmlString struct {
 	lastElementIsStart bool
 }
 
+var (
+	attributeEscaper = strings.NewReplacer("&", "&amp;", "'", "&#39;", "<", "&lt;", ">", "&gt;", "\"", "&#34;", "\r", "&#13;", "\n", "&#10;", "\t", "&#9;")
+	contentEscaper   = strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "\r", "&#13;")
+)
+
 const MaxInt = int(^uint(0) >> 1)
 
 func newXmlString() *xmlString {
@@ -116,7 +121,7 @@ func (s *xmlString) removeLast() string {
 
 func (s *xmlString) addAttribute(name string, value string) {
 	s.startAttribute(name)
-	s.addAttributeContent(value)
+	s.addAttributeContent(attributeEscaper.Replace(value))
 	s.endAttribute()
 }
 
@@ -169,7 +174,7 @@ func (s *xmlString) addContent(name string, content string) {
 	s.add("<")
 	s.add(name)
 	s.add(">")
-	s.add(content)
+	s.add(contentEscaper.Replace(content))
 	s.add("</")
 	s.depth--
 	s.add(name)
-- 
2.43.0


From 0149565a23c05e37244667cfc8a2da537ddbdb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 29/69] fix: XML loading lost the order of references, null
 values, several roots, and mixed up what follows unknown elements

---
 ecore/xmidecoder.go    |  10 ++++
 ecore/xmldecoder.go    | 109 +++++++++++++++++++++++++----------------
 ecore/xmlnamespaces.go |   2 +-
 3 files changed, 79 insertions(+), 42 deletions(-)

diff --git a/ecore/xmidecoder.go b/ecore/xmidecoder.go
index ecc9b5c..62e1a2b 100644
--- a/ecore/xmidecoder.go
+++ b/ecore/xmidecoder.go
@@ -19,6 +19,7 @@ const (
 	xmiNS         = "xmi"
 	versionAttrib = "version"
 	uuidAttrib    = "uuid"
+	xmiElement    = "XMI"
 )
 
 type XMIDecoder struct {
@@ -51,6 +52,15 @@ func (l *XMIDecoder) getXSIType() string {
 	return xsiType
 }
 
+func (l *XMIDecoder) processElement(space string, local string) {
+	if space == xmiURI && local == xmiElement && len(l.elements) == 1 {
+		// not an object, but the element that holds the top objects
+		l.xmiVersion = l.getAttributeValue(xmiURI, versionAttrib)
+	} else {
+		l.XMLDecoder.processElement(space, local)
+	}
+}
+
 func (l *XMIDecoder) handleAttributes(object EObject) {
 	version := l.getAttributeValue(xmiURI, versionAttrib)
 	if len(version) > 0 {
diff --git a/ecore/xmldecoder.go b/ecore/xmldecoder.go
index e8980dc..8ed383d 100644
--- a/ecore/xmldecoder.go
+++ b/ecore/xmldecoder.go
@@ -21,6 +21,7 @@ import (
 const (
 	href                            = "href"
 	typeAttrib                      = "type"
+	nilAttrib                       = "nil"
 	schemaLocationAttrib            = "schemaLocation"
 	noNamespaceSchemaLocationAttrib = "noNamespaceSchemaLocation"
 	xsiURI                          = "http://www.w3.org/2001/XMLSchema-instance"
@@ -53,6 +54,7 @@ type xmlReference struct {
 type xmlDecoderInternal interface {
 	getXSIType() string
 	handleAttributes(object EObject)
+	processElement(space string, local string)
 }
 
 type XMLDecoder struct {
@@ -172,10 +174,16 @@ func (l *XMLDecoder) startElement(e xml.StartElement) {
 	l.setAttributes(e.Attr)
 	l.namespaces.pushContext()
 	l.handlePrefixMapping()
-	if len(l.objects) == 0 {
+	objectsSize := len(l.objects)
+	if objectsSize == 0 {
 		l.handleSchemaLocation()
 	}
-	l.processElement(e.Name.Space, e.Name.Local)
+	l.interfaces.(xmlDecoderInternal).processElement(e.Name.Space, e.Name.Local)
+	if objectsSize > 0 && len(l.objects) == objectsSize {
+		// element is unknown: its content doesn't belong to the current object
+		l.objects = append(l.objects, nil)
+		l.types = append(l.types, load_error_type)
+	}
 }
 
 func (l *XMLDecoder) endElement(_ xml.EndElement) {
@@ -207,7 +215,9 @@ func (l *XMLDecoder) endElement(_ xml.EndElement) {
 			if eObject == nil && len(l.objects) > 0 {
 				eObject = l.objects[len(l.objects)-1]
 			}
-			l.setFeatureValue(eObject, eType.(EStructuralFeature), l.textBuilder.String(), -1)
+			if eFeature, _ := eType.(EStructuralFeature); eFeature != nil && eObject != nil {
+				l.setFeatureValue(eObject, eFeature, l.textBuilder.String(), -1)
+			}
 		}
 	}
 	l.textBuilder = nil
@@ -283,9 +293,10 @@ func (l *XMLDecoder) startPrefixMapping(prefix string, uri string) {
 	l.namespaces.declarePrefix(prefix, uri)
 	if _, exists := l.prefixesToURI[prefix]; exists {
 		index := 1
-		for _, exists = l.prefixesToURI[prefix+"_"+fmt.Sprintf("%d", index)]; exists; {
-			index++
+		for ; exists; index++ {
+			_, exists = l.prefixesToURI[prefix+"_"+fmt.Sprintf("%d", index)]
 		}
+		index--
 		prefix += "_" + fmt.Sprintf("%d", index)
 	}
 	l.prefixesToURI[prefix] = uri
@@ -318,6 +329,9 @@ func (l *XMLDecoder) processObject(eObject EObject) {
 		l.objects = append(l.objects, eObject)
 		l.types = append(l.types, load_object_type)
 	} else {
+		if len(l.objects) > 0 {
+			l.objects = append(l.objects, nil)
+		}
 		l.types = append(l.types, load_error_type)
 	}
 }
@@ -422,7 +436,11 @@ func (l *XMLDecoder) handleFeature(space string, local string) {
 	if eObject != nil {
 		eFeature := l.getFeature(eObject, space, local)
 		if eFeature != nil {
-			if featureKind := l.getLoadFeatureKind(eFeature); featureKind == xlfkSingle || featureKind == xlfkMany {
+			if l.getAttributeValue(xsiURI, nilAttrib) == "true" {
+				l.setFeatureValue(eObject, eFeature, nil, -1)
+				l.types = append(l.types, eFeature)
+				l.objects = append(l.objects, nil)
+			} else if featureKind := l.getLoadFeatureKind(eFeature); featureKind == xlfkSingle || featureKind == xlfkMany {
 				l.textBuilder = &strings.Builder{}
 				l.types = append(l.types, eFeature)
 				l.objects = append(l.objects, nil)
@@ -438,7 +456,6 @@ func (l *XMLDecoder) handleFeature(space string, local string) {
 			l.handleUnknownFeature(local)
 		}
 	} else {
-		l.types = append(l.types, load_error_type)
 		l.handleUnknownFeature(local)
 	}
 
@@ -451,51 +468,56 @@ func (l *XMLDecoder) setFeatureValue(eObject EObject,
 	kind := l.getLoadFeatureKind(eFeature)
 	switch kind {
 	case xlfkSingle:
-		eClassifier := eFeature.GetEType()
-		eDataType := eClassifier.(EDataType)
-		eFactory := eDataType.GetEPackage().GetEFactoryInstance()
 		if value == nil {
 			eObject.ESet(eFeature, nil)
-		} else {
-			eObject.ESet(eFeature, eFactory.CreateFromString(eDataType, value.(string)))
+		} else if value, ok := l.createFromString(eFeature, value.(string)); ok {
+			eObject.ESet(eFeature, value)
 		}
 
 	case xlfkMany:
-		eClassifier := eFeature.GetEType()
-		eDataType := eClassifier.(EDataType)
-		eFactory := eDataType.GetEPackage().GetEFactoryInstance()
 		eList := eObject.EGetResolve(eFeature, false).(EList)
 		if position == -2 {
 		} else if value == nil {
 			eList.Add(nil)
-		} else {
-			eList.Add(eFactory.CreateFromString(eDataType, value.(string)))
+		} else if value, ok := l.createFromString(eFeature, value.(string)); ok {
+			eList.Add(value)
 		}
 	case xlfkManyAdd:
 		fallthrough
 	case xlfkManyMove:
 		eList := eObject.EGetResolve(eFeature, false).(EList)
-		if position == -1 {
-			eList.Add(value)
-		} else if position == -2 {
+		if eObjects, _ := eList.(EObjectList); eObjects != nil {
+			eList = eObjects.GetUnResolvedList()
+		}
+		if position == -2 {
 			eList.Clear()
-		} else if eObject == value {
-			index := eList.IndexOf(value)
-			if index == -1 {
-				eList.Insert(position, value)
+		} else if value == nil {
+		} else if position < 0 {
+			eList.Add(value)
+		} else if position >= eList.Size() || eList.Get(position) != value {
+			// value may be already there: added before its position is known or by the inverse
+			if index := eList.IndexOf(value); index != -1 {
+				eList.Move(index, min(position, eList.Size()-1))
 			} else {
-				eList.Move(position, index)
+				eList.Insert(min(position, eList.Size()), value)
 			}
-		} else if kind == xlfkManyAdd {
-			eList.Add(value)
-		} else {
-			eList.MoveObject(position, value)
 		}
 	default:
 		eObject.ESet(eFeature, value)
 	}
 }
 
+func (l *XMLDecoder) createFromString(eFeature EStructuralFeature, literal string) (value any, ok bool) {
+	defer func() {
+		if err := recover(); err != nil {
+			l.error(NewEDiagnosticImpl(fmt.Sprintf("Feature %v has an invalid value '%v': %v", eFeature.GetName(), literal, err), l.resource.GetURI().String(), int(l.decoder.InputOffset()), 0))
+		}
+	}()
+	eDataType := eFeature.GetEType().(EDataType)
+	eFactory := eDataType.GetEPackage().GetEFactoryInstance()
+	return eFactory.CreateFromString(eDataType, literal), true
+}
+
 func (l *XMLDecoder) getLoadFeatureKind(eFeature EStructuralFeature) xmlLoadFeatureKind {
 	eClassifier := eFeature.GetEType()
 	if eDataType, _ := eClassifier.(EDataType); eDataType != nil {
@@ -564,7 +586,7 @@ func (l *XMLDecoder) setAttributeValue(eObject EObject, qname string, value stri
 	prefix := ""
 	if index := strings.Index(qname, ":"); index > 0 {
 		local = qname[index+1:]
-		prefix = qname[:index-1]
+		prefix = qname[:index]
 	}
 	space, _ := l.namespaces.getURI(prefix)
 	eFeature := l.getFeature(eObject, space, local)
@@ -595,6 +617,7 @@ func (l *XMLDecoder) setValueFromId(eObject EObject, eReference EReference, ids
 				id = id[1:]
 			} else {
 				oldAttributes := l.setAttributes(nil)
+				objectsSize, typesSize := len(l.objects), len(l.types)
 				var eProxy EObject
 				if len(qName) == 0 {
 					eProxy = l.createObjectFromFeatureType(eObject, eReference)
@@ -605,7 +628,8 @@ func (l *XMLDecoder) setValueFromId(eObject EObject, eReference EReference, ids
 				if eProxy != nil {
 					l.handleProxy(eProxy, id)
 				}
-				l.objects = l.objects[:len(l.objects)-1]
+				l.objects = l.objects[:objectsSize]
+				l.types = l.types[:typesSize]
 				qName = ""
 				position++
 				continue
@@ -619,7 +643,7 @@ func (l *XMLDecoder) setValueFromId(eObject EObject, eReference EReference, ids
 			if isFirstID {
 				eOpposite := eReference.GetEOpposite()
 				if eOpposite != nil {
-					mustAdd = eOpposite.IsTransient() || eReference.IsMany()
+					mustAdd = eOpposite.IsTransient() || eReference.IsMany() || !eOpposite.IsMany()
 					mustAddOrNotOppositeIsMany = mustAdd || !eOpposite.IsMany()
 				} else {
 					mustAdd = true
@@ -632,6 +656,10 @@ func (l *XMLDecoder) setValueFromId(eObject EObject, eReference EReference, ids
 				resolved := l.resource.GetEObject(id)
 				if resolved != nil {
 					l.setFeatureValue(eObject, eReference, resolved, -1)
+					if eOpposite := eReference.GetEOpposite(); eReference.IsMany() && (len(references) > 0 || eOpposite != nil && eOpposite.IsMany()) {
+						// position is known when the previous references are resolved
+						references = append(references, xmlReference{object: eObject, feature: eReference, id: id, pos: position})
+					}
 					qName = ""
 					position++
 					continue
@@ -657,7 +685,11 @@ func (l *XMLDecoder) setValueFromId(eObject EObject, eReference EReference, ids
 func (l *XMLDecoder) handleProxy(eProxy EObject, id string) {
 	resourceURI := l.resource.GetURI()
 	uri, ok := ParseURI(id)
-	if ok != nil || resourceURI == nil {
+	if ok != nil {
+		l.error(NewEDiagnosticImpl("Invalid reference '"+id+"': "+ok.Error(), "", int(l.decoder.InputOffset()), 0))
+		return
+	}
+	if resourceURI == nil {
 		return
 	}
 	// resolve reference uri
@@ -697,12 +729,8 @@ func (l *XMLDecoder) handleReferences() {
 						resolvedIndex := holderContents.IndexOf(resolvedObject)
 						if resolvedIndex != -1 {
 							proxyIndex := holderContents.IndexOf(eProxy)
-							holderContents.Move(proxyIndex, resolvedIndex)
-							if proxyIndex > resolvedIndex {
-								holderContents.Remove(proxyIndex - 1)
-							} else {
-								holderContents.Remove(proxyIndex + 1)
-							}
+							holderContents.Move(resolvedIndex, proxyIndex)
+							holderContents.Remove(eProxy)
 							break
 						}
 					}
@@ -713,8 +741,7 @@ func (l *XMLDecoder) handleReferences() {
 						list := value.(EList)
 						replace = !list.Contains(proxyHolder)
 					} else {
-						value := resolvedObject.EGet(eReference)
-						object := value.(EObject)
+						object, _ := resolvedObject.EGet(eReference).(EObject)
 						replace = object != proxyHolder
 					}
 
diff --git a/ecore/xmlnamespaces.go b/ecore/xmlnamespaces.go
index 3ffae10..c018405 100644
--- a/ecore/xmlnamespaces.go
+++ b/ecore/xmlnamespaces.go
@@ -53,7 +53,7 @@ func (n *xmlNamespaces) declarePrefix(prefix string, uri string) bool {
 	if n.namespacesSize > len(n.namespaces) {
 		n.namespaces = append(n.namespaces, pair{prefix, uri})
 	} else {
-		n.namespaces[n.namespacesSize] = pair{prefix, uri}
+		n.namespaces[n.namespacesSize-1] = pair{prefix, uri}
 	}
 	return false
 }
-- 
2.43.0


From 44da6e3a8dc18c8c409d4949d01b414c343fdd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 30/69] fix: binary loading mixed up the order of bidirectional
 references

---
 ecore/binarydecoder.go | 41 ++++++++---------------------------------
 1 file changed, 8 insertions(+), 33 deletions(-)

diff --git a/ecore/binarydecoder.go b/ecore/binarydecoder.go
index 91b9b96..13aa146 100644
--- a/ecore/binarydecoder.go
+++ b/ecore/binarydecoder.go
@@ -295,42 +295,17 @@ func (d *BinaryDecoder) decodeObjects(list EList) error {
 
 	// If the list is empty, we need to add all the objects,
 	// otherwise, the reference is bidirectional and the list is at least partially populated.
-	existingSize := list.Size()
-	if existingSize == 0 {
+	if list.Size() == 0 {
 		list.AddAll(NewImmutableEList(objects))
 	} else {
-		indices := make([]int, existingSize)
-		duplicateCount := 0
-		existingObjects := make([]any, existingSize)
-		copy(existingObjects, list.ToArray())
-	LOOP:
-		for i := 0; i < size; i++ {
-			o := objects[i]
-			count := duplicateCount
-			for j := 0; j < existingSize; j++ {
-				existing := existingObjects[j]
-				if existing == o {
-					if duplicateCount != count {
-						list.Move(count, duplicateCount)
-					}
-					indices[duplicateCount] = i
-					duplicateCount++
-					existingObjects[j] = nil
-					continue LOOP
-				} else if existing != nil {
-					count++
-				}
-			}
-			objects[i-duplicateCount] = o
+		if objectList, _ := list.(EObjectList); objectList != nil {
+			list = objectList.GetUnResolvedList()
 		}
-
-		size -= existingSize
-		list.AddAll(NewImmutableEList(objects))
-		for i := 0; i < existingSize; i++ {
-			newPosition := indices[i]
-			oldPosition := size + i
-			if newPosition != oldPosition {
-				list.Move(oldPosition, newPosition)
+		for i, object := range objects {
+			if index := list.IndexOf(object); index == -1 {
+				list.Insert(min(i, list.Size()), object)
+			} else if index != i {
+				list.Move(index, min(i, list.Size()-1))
 			}
 		}
 	}
-- 
2.43.0


From b0a4ed18ffbf06afbad279e5701180e03ae092d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:27 +0000
Subject: [PATCH 31/69] fix: an unknown or unchangeable static feature
 overflowed the stack

---
 ecore/abstracteobject.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index 61917e9..137c660 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -261,7 +261,7 @@ func (o *AbstractEObject) EGetFromID(featureID int, resolve bool) any {
 	}
 	dynamicFeatureID := featureID - o.AsEObjectInternal().EStaticFeatureCount()
 	if dynamicFeatureID < 0 {
-		return o.AsEObjectInternal().EGetResolve(feature, resolve)
+		panic("The feature '" + feature.GetName() + "' is not a valid feature")
 	} else {
 		properties := o.AsEObjectInternal().EDynamicProperties()
 		if properties != nil {
@@ -403,7 +403,7 @@ func (o *AbstractEObject) ESetFromID(featureID int, newValue any) {
 	}
 	dynamicFeatureID := featureID - o.AsEObjectInternal().EStaticFeatureCount()
 	if dynamicFeatureID < 0 {
-		o.ESet(feature, newValue)
+		panic("The feature '" + feature.GetName() + "' is not a valid changeable feature")
 	} else {
 		properties := o.AsEObjectInternal().EDynamicProperties()
 		if properties != nil {
@@ -522,7 +522,7 @@ func (o *AbstractEObject) EIsSetFromID(featureID int) bool {
 	}
 	dynamicFeatureID := featureID - o.AsEObjectInternal().EStaticFeatureCount()
 	if dynamicFeatureID < 0 {
-		return o.EIsSet(feature)
+		panic("The feature '" + feature.GetName() + "' is not a valid feature")
 	} else {
 		properties := o.AsEObjectInternal().EDynamicProperties()
 		if properties != nil {
@@ -572,7 +572,7 @@ func (o *AbstractEObject) EUnsetFromID(featureID int) {
 	}
 	dynamicFeatureID := featureID - o.AsEObjectInternal().EStaticFeatureCount()
 	if dynamicFeatureID < 0 {
-		o.EUnset(feature)
+		panic("The feature '" + feature.GetName() + "' is not a valid changeable feature")
 	} else {
 		properties := o.AsEObjectInternal().EDynamicProperties()
 		if properties != nil {
-- 
2.43.0


From 9e45df2b4726e965dc74d0daeadca421437d32bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:27 +0000
Subject: [PATCH 32/69] fix: types and opposites resolving to an object of
 another class panicked

---
 ecore/egenerictype_impl.go  | 10 ++++++++--
 ecore/ereference_impl.go    |  5 ++++-
 ecore/etypedelement_impl.go |  5 ++++-
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/ecore/egenerictype_impl.go b/ecore/egenerictype_impl.go
index c84a450..9117e91 100644
--- a/ecore/egenerictype_impl.go
+++ b/ecore/egenerictype_impl.go
@@ -74,7 +74,10 @@ func (e *EGenericTypeImpl) IsInstance(any) bool {
 func (e *EGenericTypeImpl) GetEClassifier() EClassifier {
 	if e.eClassifier != nil && e.eClassifier.EIsProxy() {
 		oldEClassifier := e.eClassifier
-		newEClassifier := e.EResolveProxy(oldEClassifier).(EClassifier)
+		newEClassifier, _ := e.EResolveProxy(oldEClassifier).(EClassifier)
+		if newEClassifier == nil {
+			return oldEClassifier
+		}
 		e.eClassifier = newEClassifier
 		if newEClassifier != oldEClassifier {
 			if e.ENotificationRequired() {
@@ -139,7 +142,10 @@ func (e *EGenericTypeImpl) basicSetELowerBound(newELowerBound EGenericType, msgs
 func (e *EGenericTypeImpl) GetERawType() EClassifier {
 	if e.eRawType != nil && e.eRawType.EIsProxy() {
 		oldERawType := e.eRawType
-		newERawType := e.EResolveProxy(oldERawType).(EClassifier)
+		newERawType, _ := e.EResolveProxy(oldERawType).(EClassifier)
+		if newERawType == nil {
+			return oldERawType
+		}
 		e.eRawType = newERawType
 		if newERawType != oldERawType {
 			if e.ENotificationRequired() {
diff --git a/ecore/ereference_impl.go b/ecore/ereference_impl.go
index a5c0aaa..8c34587 100644
--- a/ecore/ereference_impl.go
+++ b/ecore/ereference_impl.go
@@ -75,7 +75,10 @@ func (e *EReferenceImpl) GetEKeys() EList {
 func (e *EReferenceImpl) GetEOpposite() EReference {
 	if e.eOpposite != nil && e.eOpposite.EIsProxy() {
 		oldEOpposite := e.eOpposite
-		newEOpposite := e.EResolveProxy(oldEOpposite).(EReference)
+		newEOpposite, _ := e.EResolveProxy(oldEOpposite).(EReference)
+		if newEOpposite == nil {
+			return oldEOpposite
+		}
 		e.eOpposite = newEOpposite
 		if newEOpposite != oldEOpposite {
 			if e.ENotificationRequired() {
diff --git a/ecore/etypedelement_impl.go b/ecore/etypedelement_impl.go
index 2faaad9..6f58398 100644
--- a/ecore/etypedelement_impl.go
+++ b/ecore/etypedelement_impl.go
@@ -62,7 +62,10 @@ func (e *ETypedElementImpl) EStaticFeatureCount() int {
 func (e *ETypedElementImpl) GetEType() EClassifier {
 	if e.eType != nil && e.eType.EIsProxy() {
 		oldEType := e.eType
-		newEType := e.EResolveProxy(oldEType).(EClassifier)
+		newEType, _ := e.EResolveProxy(oldEType).(EClassifier)
+		if newEType == nil {
+			return oldEType
+		}
 		e.eType = newEType
 		if newEType != oldEType {
 			if e.ENotificationRequired() {
-- 
2.43.0


From 4b33aace8d9b785d43a74c88346116109aac01a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:27 +0000
Subject: [PATCH 33/69] fix: binary loading crashed on malformed documents or
 accepted objects of the wrong class

---
 ecore/binarydecoder.go | 93 ++++++++++++++++++++++++++++++++++--------
 ecore/ecoreutils.go    | 74 +++++++++++++++++++++++++++++++++
 2 files changed, 150 insertions(+), 17 deletions(-)

diff --git a/ecore/binarydecoder.go b/ecore/binarydecoder.go
index 13aa146..81c5b58 100644
--- a/ecore/binarydecoder.go
+++ b/ecore/binarydecoder.go
@@ -69,6 +69,9 @@ func NewBinaryDecoder(resource EResource, r io.Reader, options map[string]any) *
 func (d *BinaryDecoder) DecodeResource() {
 	var err error
 	defer func() {
+		if panicked := recover(); panicked != nil {
+			err = fmt.Errorf("invalid binary emf serialization: %v", panicked)
+		}
 		if err != nil {
 			// add error to resource errors
 			resourcePath := ""
@@ -88,21 +91,31 @@ func (d *BinaryDecoder) DecodeResource() {
 	}
 	// objects
 	var size int
-	if size, err = d.decodeInt(); err != nil {
+	if size, err = d.decodeSize(); err != nil {
 		return
 	}
-	objects := make([]any, size)
+	objects := []any{}
 	for i := 0; i < size; i++ {
-		if objects[i], err = d.decodeObject(); err != nil {
+		var object EObject
+		if object, err = d.decodeObject(); err != nil {
+			return
+		} else if object == nil {
+			err = errors.New("unexpected nil object in a resource")
 			return
 		}
+		objects = append(objects, object)
 	}
 
 	// add objects to resource
 	d.resource.GetContents().AddAll(NewImmutableEList(objects))
 }
 
-func (d *BinaryDecoder) DecodeObject() (EObject, error) {
+func (d *BinaryDecoder) DecodeObject() (eObject EObject, err error) {
+	defer func() {
+		if panicked := recover(); panicked != nil {
+			eObject, err = nil, fmt.Errorf("invalid binary emf serialization: %v", panicked)
+		}
+	}()
 	if err := d.decodeSignature(); err != nil {
 		return nil, err
 	}
@@ -116,6 +129,23 @@ func (d *BinaryDecoder) decodeInt() (int, error) {
 	return d.decoder.DecodeInt()
 }
 
+func (d *BinaryDecoder) decodeSize() (int, error) {
+	size, err := d.decodeInt()
+	if err == nil && size < 0 {
+		err = fmt.Errorf("invalid size '%v'", size)
+	}
+	return size, err
+}
+
+// decodeID decodes an index in a table of count elements, or the index of the next element
+func (d *BinaryDecoder) decodeID(count int) (int, error) {
+	id, err := d.decodeInt()
+	if err == nil && (id < -1 || id > count) {
+		err = fmt.Errorf("invalid id '%v'", id)
+	}
+	return id, err
+}
+
 func (d *BinaryDecoder) decodeInt64() (int64, error) {
 	return d.decoder.DecodeInt64()
 }
@@ -189,7 +219,7 @@ func (d *BinaryDecoder) decodeVersion() error {
 }
 
 func (d *BinaryDecoder) decodeObject() (EObject, error) {
-	id, err := d.decodeInt()
+	id, err := d.decodeID(len(d.objects))
 	if err != nil {
 		return nil, err
 	}
@@ -253,9 +283,12 @@ func (d *BinaryDecoder) decodeObject() (EObject, error) {
 			}
 
 			for featureID != -1 {
+				if featureID < 0 || featureID >= len(eClassData.featureData) {
+					return nil, fmt.Errorf("invalid feature id '%v' in '%v' EClass", featureID, eClassData.eClass.GetName())
+				}
 				eFeatureData := eClassData.featureData[featureID]
 				if eFeatureData == nil {
-					eFeatureData, err = d.newFeatureData(eClassData, featureID)
+					eFeatureData, err = d.newFeatureData(eClassData)
 					if err != nil {
 						return nil, err
 					}
@@ -279,18 +312,24 @@ func (d *BinaryDecoder) decodeObject() (EObject, error) {
 	}
 }
 
-func (d *BinaryDecoder) decodeObjects(list EList) error {
-	size, err := d.decodeInt()
+func (d *BinaryDecoder) decodeObjects(eObject EObject, eFeature EStructuralFeature, list EList) error {
+	size, err := d.decodeSize()
 	if err != nil {
 		return err
 	}
-	objects := make([]any, size)
+	objects := []any{}
 	for i := 0; i < size; i++ {
 		object, err := d.decodeObject()
 		if err != nil {
 			return err
 		}
-		objects[i] = object
+		if object == nil {
+			return fmt.Errorf("unexpected nil object in feature '%v'", eFeature.GetName())
+		}
+		if err := checkReferenceValue(eObject, eFeature, object); err != nil {
+			return err
+		}
+		objects = append(objects, object)
 	}
 
 	// If the list is empty, we need to add all the objects,
@@ -329,6 +368,13 @@ func (d *BinaryDecoder) decodeFeatureValue(eObject EObjectInternal, featureData
 		if err != nil {
 			return err
 		}
+		if decoded == nil {
+			eObject.ESetFromID(featureData.featureID, nil)
+			return nil
+		}
+		if err := checkReferenceValue(eObject, featureData.eFeature, decoded); err != nil {
+			return err
+		}
 		eObject.ESetFromID(featureData.featureID, decoded)
 	case bfkObjectList:
 		fallthrough
@@ -338,7 +384,7 @@ func (d *BinaryDecoder) decodeFeatureValue(eObject EObjectInternal, featureData
 		fallthrough
 	case bfkObjectContainmentListProxy:
 		l := eObject.EGetFromID(featureData.featureID, false).(EList)
-		return d.decodeObjects(l)
+		return d.decodeObjects(eObject, featureData.eFeature, l)
 	case bfkData:
 		decoded, err := d.decodeString()
 		if err != nil {
@@ -347,7 +393,7 @@ func (d *BinaryDecoder) decodeFeatureValue(eObject EObjectInternal, featureData
 		value := featureData.eFactory.CreateFromString(featureData.eDataType, decoded)
 		eObject.ESetFromID(featureData.featureID, value)
 	case bfkDataList:
-		size, err := d.decodeInt()
+		size, err := d.decodeSize()
 		if err != nil {
 			return err
 		}
@@ -364,10 +410,13 @@ func (d *BinaryDecoder) decodeFeatureValue(eObject EObjectInternal, featureData
 		l.AddAll(NewBasicEList(values))
 	case bfkEnum:
 		var valueStr string
-		id, err := d.decodeInt()
+		id, err := d.decodeID(len(d.enumLiterals))
 		if err != nil {
 			return err
 		}
+		if id == -1 {
+			return errors.New("invalid enum literal id '-1'")
+		}
 		if len(d.enumLiterals) <= id {
 			decoded, err := d.decodeString()
 			if err != nil {
@@ -446,6 +495,8 @@ func (d *BinaryDecoder) decodeFeatureValue(eObject EObjectInternal, featureData
 			return err
 		}
 		eObject.ESetFromID(featureData.featureID, decoded)
+	default:
+		return fmt.Errorf("feature '%v' can't be in a binary emf serialization", featureData.eFeature.GetName())
 	}
 	return nil
 }
@@ -459,6 +510,9 @@ func (d *BinaryDecoder) decodeClass() (*binaryDecoderClassData, error) {
 	if err != nil {
 		return nil, err
 	}
+	if id < 0 || id >= len(ePackageData.eClassData) {
+		return nil, fmt.Errorf("invalid class id '%v' in package '%v'", id, ePackageData.ePackage.GetNsURI())
+	}
 	eClassData := ePackageData.eClassData[id]
 	if eClassData == nil {
 		eClassData, err = d.newClassData(ePackageData)
@@ -471,10 +525,13 @@ func (d *BinaryDecoder) decodeClass() (*binaryDecoderClassData, error) {
 }
 
 func (d *BinaryDecoder) decodePackage() (*binaryDecoderPackageData, error) {
-	id, err := d.decodeInt()
+	id, err := d.decodeID(len(d.packageData))
 	if err != nil {
 		return nil, err
 	}
+	if id == -1 {
+		return nil, errors.New("invalid package id '-1'")
+	}
 	if len(d.packageData) <= id {
 		// decode package parameters
 		nsURI, err := d.decodeString()
@@ -510,7 +567,7 @@ func (d *BinaryDecoder) decodePackage() (*binaryDecoderPackageData, error) {
 }
 
 func (d *BinaryDecoder) decodeURI() (*URI, error) {
-	id, err := d.decodeInt()
+	id, err := d.decodeID(len(d.uris))
 	if err != nil {
 		return nil, err
 	}
@@ -566,6 +623,8 @@ func (d *BinaryDecoder) newClassData(ePackageData *binaryDecoderPackageData) (*b
 	eClass, _ := ePackage.GetEClassifier(className).(EClass)
 	if eClass == nil {
 		return nil, fmt.Errorf("unable to find class '%v' in package '%v'", className, ePackage.GetNsURI())
+	} else if eClass.IsAbstract() {
+		return nil, fmt.Errorf("class '%v' in package '%v' is abstract", className, ePackage.GetNsURI())
 	}
 	return &binaryDecoderClassData{
 		eClass:      eClass,
@@ -574,7 +633,7 @@ func (d *BinaryDecoder) newClassData(ePackageData *binaryDecoderPackageData) (*b
 	}, nil
 }
 
-func (d *BinaryDecoder) newFeatureData(eClassData *binaryDecoderClassData, featureID int) (*binaryDecoderFeatureData, error) {
+func (d *BinaryDecoder) newFeatureData(eClassData *binaryDecoderClassData) (*binaryDecoderFeatureData, error) {
 	eFeatureName, err := d.decodeString()
 	if err != nil {
 		return nil, err
@@ -585,7 +644,7 @@ func (d *BinaryDecoder) newFeatureData(eClassData *binaryDecoderClassData, featu
 	}
 	eFeatureData := &binaryDecoderFeatureData{
 		eFeature:    eFeature,
-		featureID:   featureID,
+		featureID:   eClassData.eClass.GetFeatureID(eFeature),
 		featureKind: getBinaryCodecFeatureKind(eFeature),
 	}
 	if eAttribute, _ := eFeature.(EAttribute); eAttribute != nil {
diff --git a/ecore/ecoreutils.go b/ecore/ecoreutils.go
index 57b3621..aaa040f 100644
--- a/ecore/ecoreutils.go
+++ b/ecore/ecoreutils.go
@@ -10,6 +10,8 @@
 package ecore
 
 import (
+	"errors"
+	"fmt"
 	"strings"
 )
 
@@ -210,6 +212,78 @@ func IsAncestor(eAncestor EObject, eObject EObject) bool {
 	return eCurrent == eAncestor
 }
 
+// checkReferenceValue checks that a decoded object can be a value of a feature
+func checkReferenceValue(eObject EObject, eFeature EStructuralFeature, value EObject) error {
+	eReference, _ := eFeature.(EReference)
+	if eReference == nil {
+		return fmt.Errorf("feature '%v' can't hold an object", eFeature.GetName())
+	}
+	eType, _ := eReference.GetEType().(EClass)
+	if eType == nil {
+		return fmt.Errorf("feature '%v' has no class", eFeature.GetName())
+	}
+	eClass := value.EClass()
+	if !isSameOrSuperType(eType, eClass) {
+		return fmt.Errorf("feature '%v' can't hold an object of class '%v'", eFeature.GetName(), eClass.GetName())
+	}
+	if eReference.IsContainment() && isInternalAncestor(value, eObject) ||
+		eReference.IsContainer() && isInternalAncestor(eObject, value) {
+		return errors.New("an object can't contain itself")
+	}
+	if eReference == GetPackage().GetEClass_ESuperTypes() && isInternalSuperType(eObject.(EClass), value.(EClass), map[EClass]struct{}{}) {
+		return errors.New("a class can't be its own super type")
+	}
+	return nil
+}
+
+func isInternalSuperType(eSuperType EClass, eClass EClass, visited map[EClass]struct{}) bool {
+	if eSuperType == eClass {
+		return true
+	}
+	if _, isVisited := visited[eClass]; isVisited {
+		return false
+	}
+	visited[eClass] = struct{}{}
+	for it := eClass.GetESuperTypes().(EObjectList).GetUnResolvedList().Iterator(); it.HasNext(); {
+		if isInternalSuperType(eSuperType, it.Next().(EClass), visited) {
+			return true
+		}
+	}
+	return false
+}
+
+func isInternalAncestor(eAncestor EObject, eObject EObject) bool {
+	eCurrent := eObject
+	for eCurrent != nil && eCurrent != eAncestor {
+		eCurrent = eCurrent.(EObjectInternal).EInternalContainer()
+	}
+	return eCurrent == eAncestor
+}
+
+// isSameOrSuperType tells if a type is a class or one of its super types, or
+// another copy of it
+func isSameOrSuperType(eType EClass, eClass EClass) bool {
+	if eType == eClass || eType.EIsProxy() || isSameClassifier(eType, GetPackage().GetEObject()) || isSameClassifier(eType, eClass) {
+		return true
+	}
+	for it := eClass.GetEAllSuperTypes().Iterator(); it.HasNext(); {
+		if superType := it.Next().(EClass); superType == eType || isSameClassifier(eType, superType) {
+			return true
+		}
+	}
+	return false
+}
+
+func isSameClassifier(c1 EClassifier, c2 EClassifier) bool {
+	if c1 == c2 {
+		return true
+	} else if c1.GetName() != c2.GetName() {
+		return false
+	}
+	p1, p2 := c1.GetEPackage(), c2.GetEPackage()
+	return p1 != nil && p2 != nil && p1.GetNsURI() == p2.GetNsURI()
+}
+
 func ResolveAllInResourceSet(resourceSet EResourceSet) {
 	for it := resourceSet.GetResources().Iterator(); it.HasNext(); {
 		resource := it.Next().(EResource)
-- 
2.43.0


From d7f67e8de75cfa7ca94cb964bca0a181a4861c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:27 +0000
Subject: [PATCH 34/69] fix: short writes and errors of closing were not
 reported when saving

---
 ecore/binaryencoder.go  | 12 ++++++++++--
 ecore/eresource_impl.go |  4 +++-
 ecore/fullwriter.go     | 29 +++++++++++++++++++++++++++++
 ecore/xmlstring.go      |  2 +-
 4 files changed, 43 insertions(+), 4 deletions(-)
 create mode 100644 ecore/fullwriter.go

diff --git a/ecore/binaryencoder.go b/ecore/binaryencoder.go
index 902e6d2..11a82b7 100644
--- a/ecore/binaryencoder.go
+++ b/ecore/binaryencoder.go
@@ -73,7 +73,7 @@ func NewBinaryEncoderWithVersion(resource EResource, w io.Writer, options map[st
 	e := &BinaryEncoder{
 		w:                           w,
 		resource:                    resource,
-		encoder:                     msgpack.NewEncoder(w),
+		encoder:                     msgpack.NewEncoder(newFullWriter(w)),
 		version:                     version,
 		objectToID:                  map[EObject]int{},
 		classDataMap:                map[EClass]*binaryEncoderClassData{},
@@ -96,6 +96,9 @@ func NewBinaryEncoderWithVersion(resource EResource, w io.Writer, options map[st
 func (e *BinaryEncoder) EncodeResource() {
 	var err error
 	defer func() {
+		if panicked := recover(); panicked != nil {
+			err = fmt.Errorf("unable to save: %v", panicked)
+		}
 		if err != nil {
 			// add error to resource errors
 			resourcePath := ""
@@ -115,7 +118,12 @@ func (e *BinaryEncoder) EncodeResource() {
 	err = e.encodeObjects(e.resource.GetContents(), checkContainer)
 }
 
-func (e *BinaryEncoder) EncodeObject(object EObject) error {
+func (e *BinaryEncoder) EncodeObject(object EObject) (err error) {
+	defer func() {
+		if panicked := recover(); panicked != nil {
+			err = fmt.Errorf("unable to save: %v", panicked)
+		}
+	}()
 	e.objectRoot = object
 	if err := e.encodeSignature(); err != nil {
 		return err
diff --git a/ecore/eresource_impl.go b/ecore/eresource_impl.go
index ca37643..967b265 100644
--- a/ecore/eresource_impl.go
+++ b/ecore/eresource_impl.go
@@ -529,7 +529,9 @@ func (r *EResourceImpl) SaveWithOptions(options map[string]any) {
 			errors.Add(NewEDiagnosticImpl("Unable to create writer for '"+r.uri.String()+"' :"+err.Error(), r.uri.String(), 0, 0))
 		} else if w != nil {
 			r.SaveWithWriter(w, options)
-			w.Close()
+			if err := w.Close(); err != nil {
+				r.GetErrors().Add(NewEDiagnosticImpl("Unable to close writer for '"+r.uri.String()+"' :"+err.Error(), r.uri.String(), 0, 0))
+			}
 		}
 	}
 }
diff --git a/ecore/fullwriter.go b/ecore/fullwriter.go
new file mode 100644
index 0000000..c9980e8
--- /dev/null
+++ b/ecore/fullwriter.go
@@ -0,0 +1,29 @@
+// *****************************************************************************
+// Copyright(c) 2021 MASA Group
+//
+// This Source Code Form is subject to the terms of the Mozilla Public
+// License, v. 2.0. If a copy of the MPL was not distributed with this
+// file, You can obtain one at https://mozilla.org/MPL/2.0/.
+//
+// *****************************************************************************
+
+package ecore
+
+import "io"
+
+// fullWriter is a writer which gives an error when not all is written
+type fullWriter struct {
+	w io.Writer
+}
+
+func newFullWriter(w io.Writer) io.Writer {
+	return &fullWriter{w: w}
+}
+
+func (f *fullWriter) Write(p []byte) (int, error) {
+	n, err := f.w.Write(p)
+	if err == nil && n < len(p) {
+		err = io.ErrShortWrite
+	}
+	return n, err
+}
diff --git a/ecore/xmlstring.go b/ecore/xmlstring.go
index d33bf33..7bc0b28 100644
--- a/ecore/xmlstring.go
+++ b/ecore/xmlstring.go
@@ -45,7 +45,7 @@ func newXmlString() *xmlString {
 
 func (s *xmlString) write(w io.Writer) error {
 	for _, segment := range s.segments {
-		if _, err := w.Write([]byte(segment.String())); err != nil {
+		if _, err := newFullWriter(w).Write([]byte(segment.String())); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From a8e695ee8a40da47102c3169af5c8c4ff39e8a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:27 +0000
Subject: [PATCH 35/69] fix: XML loading crashed on malformed documents or
 accepted invalid ones

---
 ecore/xmldecoder.go | 50 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/ecore/xmldecoder.go b/ecore/xmldecoder.go
index 8ed383d..89d47ca 100644
--- a/ecore/xmldecoder.go
+++ b/ecore/xmldecoder.go
@@ -10,6 +10,7 @@
 package ecore
 
 import (
+	"bytes"
 	"encoding/xml"
 	"fmt"
 	"io"
@@ -144,20 +145,39 @@ func (l *XMLDecoder) DecodeObject() (eObject EObject, err error) {
 }
 
 func (l *XMLDecoder) decodeTopObject() {
+	defer func() {
+		if err := recover(); err != nil {
+			l.error(NewEDiagnosticImpl(fmt.Sprintf("invalid document: %v", err), l.resource.GetURI().String(), int(l.decoder.InputOffset()), 0))
+		}
+	}()
+	hasRoot := false
 	for {
 		t, tokenErr := l.decoder.Token()
 		if tokenErr != nil {
 			if tokenErr != io.EOF {
 				l.error(NewEDiagnosticImpl(tokenErr.Error(), l.resource.GetURI().String(), int(l.decoder.InputOffset()), 0))
 			}
+			if tokenErr == io.EOF && !hasRoot {
+				l.error(NewEDiagnosticImpl("Root element not found", l.resource.GetURI().String(), int(l.decoder.InputOffset()), 0))
+			}
 			break
 		}
 		switch t := t.(type) {
 		case xml.StartElement:
+			if len(l.elements) == 0 {
+				if hasRoot {
+					l.error(NewEDiagnosticImpl("Unexpected second root element", l.resource.GetURI().String(), int(l.decoder.InputOffset()), 0))
+					return
+				}
+				hasRoot = true
+			}
 			l.startElement(t)
 		case xml.EndElement:
 			l.endElement(t)
 		case xml.CharData:
+			if len(l.elements) == 0 && len(bytes.TrimSpace(bytes.TrimPrefix(t, []byte("\uFEFF")))) > 0 {
+				l.error(NewEDiagnosticImpl("Unexpected text outside of the root element", l.resource.GetURI().String(), int(l.decoder.InputOffset()), 0))
+			}
 			l.text(string([]byte(t)))
 		case xml.Comment:
 			l.comment(string([]byte(t)))
@@ -492,6 +512,7 @@ func (l *XMLDecoder) setFeatureValue(eObject EObject,
 		if position == -2 {
 			eList.Clear()
 		} else if value == nil {
+		} else if !l.checkReferenceValue(eObject, eFeature, value) {
 		} else if position < 0 {
 			eList.Add(value)
 		} else if position >= eList.Size() || eList.Get(position) != value {
@@ -503,10 +524,20 @@ func (l *XMLDecoder) setFeatureValue(eObject EObject,
 			}
 		}
 	default:
-		eObject.ESet(eFeature, value)
+		if value == nil || l.checkReferenceValue(eObject, eFeature, value) {
+			eObject.ESet(eFeature, value)
+		}
 	}
 }
 
+func (l *XMLDecoder) checkReferenceValue(eObject EObject, eFeature EStructuralFeature, value any) bool {
+	err := checkReferenceValue(eObject, eFeature, value.(EObject))
+	if err != nil {
+		l.error(NewEDiagnosticImpl(err.Error(), l.resource.GetURI().String(), int(l.decoder.InputOffset()), 0))
+	}
+	return err == nil
+}
+
 func (l *XMLDecoder) createFromString(eFeature EStructuralFeature, literal string) (value any, ok bool) {
 	defer func() {
 		if err := recover(); err != nil {
@@ -669,6 +700,9 @@ func (l *XMLDecoder) setValueFromId(eObject EObject, eReference EReference, ids
 
 		if mustAdd {
 			references = append(references, xmlReference{object: eObject, feature: eReference, id: id, pos: position})
+		} else {
+			// should be set by its opposite
+			references = append(references, xmlReference{object: eObject, feature: eReference, id: id, pos: -2})
 		}
 
 		qName = ""
@@ -707,6 +741,12 @@ func (l *XMLDecoder) handleProxy(eProxy EObject, id string) {
 
 func (l *XMLDecoder) handleReferences() {
 	for _, eProxy := range l.sameDocumentProxies {
+		if eProxy := eProxy.(EObjectInternal); eProxy.EInternalContainer() != nil && eProxy.EContainmentFeature() != nil || eProxy.EInternalResource() != nil {
+			// an object of the document is contained where it is
+			l.error(NewEDiagnosticImpl("Invalid containment of '"+eProxy.EProxyURI().String()+"'", l.resource.GetURI().String(), int(l.decoder.InputOffset()), 0))
+			eProxy.ESetProxyURI(nil)
+			continue
+		}
 		for itRef := eProxy.EClass().GetEAllReferences().Iterator(); itRef.HasNext(); {
 			eReference := itRef.Next().(EReference)
 			eOpposite := eReference.GetEOpposite()
@@ -723,6 +763,10 @@ func (l *XMLDecoder) handleReferences() {
 						proxyHolder = value.(EObject)
 					}
 
+					if !l.checkReferenceValue(proxyHolder, eOpposite, resolvedObject) {
+						break
+					}
+
 					if eOpposite.IsMany() {
 						value := proxyHolder.EGetResolve(eOpposite, false)
 						holderContents := value.(EList)
@@ -764,7 +808,9 @@ func (l *XMLDecoder) handleReferences() {
 	for _, reference := range l.references {
 		eObject := l.resource.GetEObject(reference.id)
 		if eObject != nil {
-			l.setFeatureValue(reference.object, reference.feature, eObject, reference.pos)
+			if reference.pos != -2 || reference.object.EGetResolve(reference.feature, false) == nil {
+				l.setFeatureValue(reference.object, reference.feature, eObject, reference.pos)
+			}
 		} else {
 			l.error(NewEDiagnosticImpl(
 				"Unresolved reference '"+reference.id+"'", l.resource.GetURI().String(), int(l.decoder.InputOffset()), 0))
-- 
2.43.0


From 15f302627286abffb8d7fdc321083bd32ff5e4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:27 +0000
Subject: [PATCH 36/69] fix: XML saving of values that can't be saved crashed
 or lost them

---
 ecore/xmlencoder.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ecore/xmlencoder.go b/ecore/xmlencoder.go
index 19a38a8..6389613 100644
--- a/ecore/xmlencoder.go
+++ b/ecore/xmlencoder.go
@@ -116,6 +116,7 @@ func (s *XMLEncoder) EncodeResource() {
 	if contents.Empty() {
 		return
 	}
+	defer s.recover()
 	s.interfaces.(xmlEncoderInternal).encodeTopObjects(contents)
 }
 
@@ -129,10 +130,18 @@ func (s *XMLEncoder) EncodeObject(eObject EObject) (err error) {
 			err = diagnostic
 		}
 	}
+	defer s.recover()
 	s.encodeTopObject(eObject)
 	return
 }
 
+// recover gives an error for a value that can't be saved
+func (s *XMLEncoder) recover() {
+	if err := recover(); err != nil {
+		s.error(NewEDiagnosticImpl(fmt.Sprintf("unable to save: %v", err), s.resource.GetURI().String(), 0, 0))
+	}
+}
+
 func (s *XMLEncoder) encodeTopObject(eObject EObject) {
 	s.saveHeader()
 
@@ -772,7 +781,7 @@ func (s *XMLEncoder) getIDRef(eObject EObject) string {
 	if s.resource == nil {
 		return ""
 	} else {
-		if eObject.EResource() == nil && (s.resource.GetObjectIDManager() == nil || s.resource.GetObjectIDManager().GetID(eObject) == nil) {
+		if eObject.EResource() == nil {
 			s.handleDanglingHREF(eObject)
 			return ""
 		}
-- 
2.43.0


From 052e03caf7418f4f58d91d6c4f99e2cefa39595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:27 +0000
Subject: [PATCH 37/69] fix: JSON saving lost errors, roots, references, and
 wrote invalid texts

---
 ecore/jsonencoder.go | 177 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 142 insertions(+), 35 deletions(-)

diff --git a/ecore/jsonencoder.go b/ecore/jsonencoder.go
index aa89457..e393345 100644
--- a/ecore/jsonencoder.go
+++ b/ecore/jsonencoder.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"unicode/utf8"
 
 	"github.com/karlseguin/jsonwriter"
 )
@@ -12,15 +13,31 @@ import (
 type JSONEncoder struct {
 	resource        EResource
 	w               *jsonwriter.Writer
+	out             *jsonOutput
 	featureKinds    map[EStructuralFeature]jsonFeatureKind
 	errorFn         func(diagnostic EDiagnostic)
 	idAttributeName string
 	keepDefaults    bool
 }
 
+// jsonOutput is a writer which keeps the first error
+type jsonOutput struct {
+	w   io.Writer
+	err error
+}
+
+func (o *jsonOutput) Write(p []byte) (n int, err error) {
+	if o.err == nil {
+		n, o.err = o.w.Write(p)
+	}
+	return n, o.err
+}
+
 func NewJSONEncoder(resource EResource, w io.Writer, options map[string]interface{}) *JSONEncoder {
+	out := &jsonOutput{w: newFullWriter(w)}
 	e := &JSONEncoder{
-		w:            jsonwriter.New(w),
+		w:            jsonwriter.New(out),
+		out:          out,
 		resource:     resource,
 		featureKinds: map[EStructuralFeature]jsonFeatureKind{},
 	}
@@ -34,9 +51,14 @@ func (e *JSONEncoder) EncodeResource() {
 	e.errorFn = func(diagnostic EDiagnostic) {
 		e.resource.GetErrors().Add(diagnostic)
 	}
-	if contents := e.resource.GetContents(); !contents.Empty() {
-		object := contents.Get(0).(EObject)
-		e.encodeTopObject(object)
+	if contents := e.resource.GetContents(); contents.Size() == 1 {
+		e.encodeTopObject(contents.Get(0).(EObject))
+	} else {
+		e.encodeTop(func() {
+			e.w.RootArray(func() {
+				e.encodeObjects(contents)
+			})
+		})
 	}
 }
 
@@ -51,19 +73,60 @@ func (e *JSONEncoder) EncodeObject(object EObject) (err error) {
 }
 
 func (e *JSONEncoder) encodeTopObject(eObject EObject) {
-	e.w.RootObject(func() {
-		e.encodeObject(eObject)
+	e.encodeTop(func() {
+		e.w.RootObject(func() {
+			e.encodeObject(eObject)
+		})
 	})
 }
 
+func (e *JSONEncoder) encodeTop(encode func()) {
+	defer func() {
+		if err := recover(); err != nil {
+			e.error(fmt.Sprintf("unable to save: %v", err))
+		}
+	}()
+	encode()
+	if e.out.err != nil {
+		e.error(e.out.err.Error())
+	}
+}
+
+func (e *JSONEncoder) error(message string) {
+	location := ""
+	if uri := e.resource.GetURI(); uri != nil {
+		location = uri.String()
+	}
+	e.errorFn(NewEDiagnosticImpl(message, location, 0, 0))
+}
+
+func (e *JSONEncoder) encodeObjects(objects EList) {
+	if eObjects, _ := objects.(EObjectList); eObjects != nil {
+		objects = eObjects.GetUnResolvedList()
+	}
+	for it := objects.Iterator(); it.HasNext(); {
+		if eObject, _ := it.Next().(EObject); eObject == nil {
+			e.w.Value(nil)
+		} else {
+			e.w.ArrayObject(func() {
+				e.encodeObject(eObject)
+			})
+		}
+	}
+}
+
 func (e *JSONEncoder) encodeObject(eObject EObject) {
+	if eObject.EIsProxy() {
+		e.encodeObjectReference(eObject)
+		return
+	}
 	eClass := eObject.EClass()
 	// class
-	e.w.KeyString("eClass", e.getClassName(eClass))
+	e.encodeKeyString("eClass", e.getClassName(eClass))
 	// id
 	if idManager := e.resource.GetObjectIDManager(); len(e.idAttributeName) > 0 && idManager != nil {
 		if id := idManager.GetID(eObject); id != nil {
-			e.w.KeyValue(e.idAttributeName, fmt.Sprintf("%v", id))
+			e.encodeKeyString(e.idAttributeName, fmt.Sprintf("%v", id))
 		}
 	}
 	// features
@@ -74,8 +137,21 @@ func (e *JSONEncoder) encodeObject(eObject EObject) {
 }
 
 func (e *JSONEncoder) encodeObjectReference(eObject EObject) {
-	e.w.KeyString("eClass", e.getClassName(eObject.EClass()))
-	e.w.KeyString("eRef", e.getReference(eObject))
+	e.encodeKeyString("eClass", e.getClassName(eObject.EClass()))
+	e.encodeKeyString("eRef", e.getReference(eObject))
+}
+
+// encodeKeyString doesn't use e.w.KeyString because json escaping is bugged in jsonwriter
+func (e *JSONEncoder) encodeKeyString(key string, value string) {
+	e.w.Key(key)
+	e.w.Raw(e.escape(value))
+}
+
+func (e *JSONEncoder) escape(value string) []byte {
+	if !utf8.ValidString(value) {
+		e.error(fmt.Sprintf("invalid text %q", value))
+	}
+	return []byte(jsonEscape(value))
 }
 
 func jsonEscape(i string) string {
@@ -98,7 +174,7 @@ func (e *JSONEncoder) encodeFeatureValue(eObject EObject, eFeature EStructuralFe
 	// compute feature kind
 	kind, ok := e.featureKinds[eFeature]
 	if !ok {
-		kind = getJSONCodecFeatureKind(eFeature)
+		kind = e.getFeatureKind(eFeature)
 		e.featureKinds[eFeature] = kind
 	}
 
@@ -106,52 +182,82 @@ func (e *JSONEncoder) encodeFeatureValue(eObject EObject, eFeature EStructuralFe
 	switch kind {
 	case jfkTransient:
 	case jfkData:
-		str, ok := e.getData(value, eFeature)
-		if ok {
-			// don't use e.w.KeyString because json escaping is bugged
-			// in jsonencoder
-			e.w.Key(eFeature.GetName())
-			e.w.Raw([]byte(jsonEscape(str)))
+		e.w.Key(eFeature.GetName())
+		if str, ok := e.getData(value, eFeature); ok {
+			e.w.Raw(e.escape(str))
+		} else {
+			e.w.Value(nil)
 		}
 	case jfkDataList:
 		l := value.(EList)
 		e.w.Array(eFeature.GetName(), func() {
 			for it := l.Iterator(); it.HasNext(); {
-				str, ok := e.getData(it.Next(), eFeature)
-				if ok {
-					e.w.Value(str)
+				if str, ok := e.getData(it.Next(), eFeature); ok {
+					e.w.RawValue(e.escape(str))
+				} else {
+					e.w.Value(nil)
 				}
 			}
 		})
 	case jfkObject:
-		e.w.Object(eFeature.GetName(), func() {
-			e.encodeObject(value.(EObject))
-		})
+		if eObject, _ := value.(EObject); eObject == nil {
+			e.w.KeyValue(eFeature.GetName(), nil)
+		} else {
+			e.w.Object(eFeature.GetName(), func() {
+				e.encodeObject(eObject)
+			})
+		}
 	case jfkObjectList:
-		l := value.(EList)
 		e.w.Array(eFeature.GetName(), func() {
-			for it := l.Iterator(); it.HasNext(); {
-				e.w.ArrayObject(func() {
-					e.encodeObject(it.Next().(EObject))
-				})
-			}
+			e.encodeObjects(value.(EList))
 		})
 	case jfkObjectReference:
-		e.w.Object(eFeature.GetName(), func() {
-			e.encodeObjectReference(value.(EObject))
-		})
+		if eObject, _ := value.(EObject); eObject == nil {
+			e.w.KeyValue(eFeature.GetName(), nil)
+		} else {
+			e.w.Object(eFeature.GetName(), func() {
+				e.encodeObjectReference(eObject)
+			})
+		}
 	case jfkObjectReferenceList:
 		l := value.(EList)
+		if eObjects, _ := l.(EObjectList); eObjects != nil {
+			l = eObjects.GetUnResolvedList()
+		}
 		e.w.Array(eFeature.GetName(), func() {
 			for it := l.Iterator(); it.HasNext(); {
-				e.w.ArrayObject(func() {
-					e.encodeObjectReference(it.Next().(EObject))
-				})
+				if eObject, _ := it.Next().(EObject); eObject == nil {
+					e.w.Value(nil)
+				} else {
+					e.w.ArrayObject(func() {
+						e.encodeObjectReference(eObject)
+					})
+				}
 			}
 		})
 	}
 }
 
+func (e *JSONEncoder) getFeatureKind(eFeature EStructuralFeature) jsonFeatureKind {
+	kind := getJSONCodecFeatureKind(eFeature)
+	switch kind {
+	case jfkData, jfkDataList:
+		if eDataType, _ := eFeature.GetEType().(EDataType); eDataType != nil && !eDataType.IsSerializable() {
+			return jfkTransient
+		}
+	case jfkObject:
+		// an object is only where it is contained
+		if !eFeature.(EReference).IsContainment() {
+			return jfkObjectReference
+		}
+	case jfkObjectList:
+		if !eFeature.(EReference).IsContainment() {
+			return jfkObjectReferenceList
+		}
+	}
+	return kind
+}
+
 func (e *JSONEncoder) shouldSaveFeature(o EObject, f EStructuralFeature) bool {
 	return o.EIsSet(f) || (e.keepDefaults && f.GetDefaultValueLiteral() != "")
 }
@@ -183,6 +289,7 @@ func (e *JSONEncoder) getReference(eObject EObject) string {
 				if e.resource != nil && e.resource.GetObjectIDManager() != nil && e.resource.GetObjectIDManager().GetID(eObject) != nil {
 					objectURI = e.getResourceReference(e.resource, eObject)
 				} else {
+					e.error(fmt.Sprintf("Object '%p' is not contained in a resource.", eObject))
 					return ""
 				}
 			} else {
-- 
2.43.0


From 9422b598d45d2d126770a712b7cada0add060faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:23 +0000
Subject: [PATCH 38/69] fix: URIs with the same components were not equal when
 their texts were escaped differently

---
 ecore/uri.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecore/uri.go b/ecore/uri.go
index 56ea952..4123a97 100644
--- a/ecore/uri.go
+++ b/ecore/uri.go
@@ -457,7 +457,11 @@ func (uri *URI) ReplacePrefix(oldPrefix *URI, newPrefix *URI) *URI {
 }
 
 func (uri *URI) Equals(other *URI) bool {
-	return other != nil && (uri == other || uri.rawURI == other.rawURI)
+	return other != nil && (uri == other || uri.rawURI == other.rawURI ||
+		// the same components may have several texts
+		uri.scheme == other.scheme && uri.username == other.username && uri.password == other.password &&
+			uri.host == other.host && uri.port == other.port && uri.path == other.path &&
+			uri.query == other.query && uri.fragment == other.fragment)
 }
 
 func normalize(path string) string {
-- 
2.43.0


From 41dd1ef6a7bc844aca1ffe8afacc9721e8ebb1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:23 +0000
Subject: [PATCH 39/69] fix: normalizing a URI depended on the order of
 mappings, and never ended for cyclic ones or no URI

---
 ecore/euriconverter_impl.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/ecore/euriconverter_impl.go b/ecore/euriconverter_impl.go
index 454ab92..9411e0a 100644
--- a/ecore/euriconverter_impl.go
+++ b/ecore/euriconverter_impl.go
@@ -39,21 +39,37 @@ func (r *EURIConverterImpl) GetURIMap() map[URI]URI {
 	return r.uriMap
 }
 
+// Normalize applies the mapping with the longest prefix, again and again
 func (r *EURIConverterImpl) Normalize(uri *URI) *URI {
-	normalized := r.getURIFromMap(uri)
-	if uri.Equals(normalized) {
-		return normalized
+	// length of the uri each mapping was last applied to: a mapping is applied again
+	// to shorter ones only, mappings may be cyclic
+	lengths := map[URI]int{}
+	for uri != nil {
+		oldPrefix, mapped := r.getURIFromMap(uri)
+		if mapped == nil || uri.Equals(mapped) {
+			break
+		}
+		length := len(uri.String())
+		if lastLength, isApplied := lengths[*oldPrefix]; isApplied && lastLength <= length {
+			break
+		}
+		lengths[*oldPrefix] = length
+		uri = mapped
 	}
-	return r.Normalize(normalized)
+	return uri
 }
 
-func (r *EURIConverterImpl) getURIFromMap(uri *URI) *URI {
+func (r *EURIConverterImpl) getURIFromMap(uri *URI) (prefix *URI, mapped *URI) {
 	for oldPrefix, newPrefix := range r.uriMap {
-		if r := uri.ReplacePrefix(&oldPrefix, &newPrefix); r != nil {
-			return r
+		if prefix != nil && (len(prefix.rawURI) > len(oldPrefix.rawURI) ||
+			len(prefix.rawURI) == len(oldPrefix.rawURI) && prefix.rawURI < oldPrefix.rawURI) {
+			continue
+		}
+		if newURI := uri.ReplacePrefix(&oldPrefix, &newPrefix); newURI != nil {
+			prefix, mapped = &oldPrefix, newURI
 		}
 	}
-	return uri
+	return
 }
 
 func (r *EURIConverterImpl) GetURIHandler(uri *URI) EURIHandler {
-- 
2.43.0


From aaac978711dcb5be7283aaf4ae6b41bee788d225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:23 +0000
Subject: [PATCH 40/69] fix: loading and saving of resources without a URI
 crashed

---
 ecore/ecodecregistry_impl.go | 18 ++++++++++--------
 ecore/ecoreutils.go          |  8 ++++++++
 ecore/eresource_impl.go      |  8 ++++----
 ecore/jsonencoder.go         | 10 ++++------
 ecore/xmldecoder.go          | 33 +++++++++++++++------------------
 ecore/xmlencoder.go          | 12 +++++++-----
 6 files changed, 48 insertions(+), 41 deletions(-)

diff --git a/ecore/ecodecregistry_impl.go b/ecore/ecodecregistry_impl.go
index e54b61f..43421a1 100644
--- a/ecore/ecodecregistry_impl.go
+++ b/ecore/ecodecregistry_impl.go
@@ -33,16 +33,18 @@ func NewECodecRegistryImplWithDelegate(delegate ECodecRegistry) *ECodecRegistryI
 }
 
 func (r *ECodecRegistryImpl) GetCodec(uri *URI) ECodec {
-	if factory, ok := r.protocolToCodec[uri.scheme]; ok {
-		return factory
-	}
-	p := uri.Path()
-	ndx := strings.LastIndex(p, ".")
-	if ndx != -1 {
-		extension := p[ndx+1:]
-		if factory, ok := r.extensionToCodec[extension]; ok {
+	if uri != nil {
+		if factory, ok := r.protocolToCodec[uri.scheme]; ok {
 			return factory
 		}
+		p := uri.Path()
+		ndx := strings.LastIndex(p, ".")
+		if ndx != -1 {
+			extension := p[ndx+1:]
+			if factory, ok := r.extensionToCodec[extension]; ok {
+				return factory
+			}
+		}
 	}
 	if factory, ok := r.extensionToCodec[DEFAULT_EXTENSION]; ok {
 		return factory
diff --git a/ecore/ecoreutils.go b/ecore/ecoreutils.go
index aaa040f..c68489f 100644
--- a/ecore/ecoreutils.go
+++ b/ecore/ecoreutils.go
@@ -319,3 +319,11 @@ func EAllContentsWithClass(eObject EObject, eClass EClass) EIterator {
 func EAllContentsWithTable(eObject EObject, table *EClassTransitionsTable) EIterator {
 	return newEAllContentsWithTableIterator(eObject, table)
 }
+
+// getResourceLocation gives the location of a resource for its diagnostics
+func getResourceLocation(resource EResource) string {
+	if uri := resource.GetURI(); uri != nil {
+		return uri.String()
+	}
+	return ""
+}
diff --git a/ecore/eresource_impl.go b/ecore/eresource_impl.go
index 967b265..b8304f1 100644
--- a/ecore/eresource_impl.go
+++ b/ecore/eresource_impl.go
@@ -456,11 +456,11 @@ func (r *EResourceImpl) LoadWithReader(rd io.Reader, options map[string]any) {
 		if codec := codecs.GetCodec(r.uri); codec == nil {
 			errors := r.GetErrors()
 			errors.Clear()
-			errors.Add(NewEDiagnosticImpl("Unable to find codec for '"+r.uri.String()+"'", r.uri.String(), 0, 0))
+			errors.Add(NewEDiagnosticImpl("Unable to find codec for '"+getResourceLocation(r)+"'", getResourceLocation(r), 0, 0))
 		} else if decoder := codec.NewDecoder(r.AsEResource(), rd, options); decoder == nil {
 			errors := r.GetErrors()
 			errors.Clear()
-			errors.Add(NewEDiagnosticImpl("Unable to create decoder for '"+r.uri.String()+"'", r.uri.String(), 0, 0))
+			errors.Add(NewEDiagnosticImpl("Unable to create decoder for '"+getResourceLocation(r)+"'", getResourceLocation(r), 0, 0))
 		} else {
 			r.isLoading = true
 			ri := r.AsEResourceInternal()
@@ -541,11 +541,11 @@ func (r *EResourceImpl) SaveWithWriter(w io.Writer, options map[string]any) {
 	if codec := codecs.GetCodec(r.uri); codec == nil {
 		errors := r.GetErrors()
 		errors.Clear()
-		errors.Add(NewEDiagnosticImpl("Unable to find codec for '"+r.uri.String()+"'", r.uri.String(), 0, 0))
+		errors.Add(NewEDiagnosticImpl("Unable to find codec for '"+getResourceLocation(r)+"'", getResourceLocation(r), 0, 0))
 	} else if encoder := codec.NewEncoder(r.AsEResource(), w, options); encoder == nil {
 		errors := r.GetErrors()
 		errors.Clear()
-		errors.Add(NewEDiagnosticImpl("Unable to create encoder for '"+r.uri.String()+"'", r.uri.String(), 0, 0))
+		errors.Add(NewEDiagnosticImpl("Unable to create encoder for '"+getResourceLocation(r)+"'", getResourceLocation(r), 0, 0))
 	} else {
 		if r.errors != nil {
 			r.errors.Clear()
diff --git a/ecore/jsonencoder.go b/ecore/jsonencoder.go
index e393345..26bba7e 100644
--- a/ecore/jsonencoder.go
+++ b/ecore/jsonencoder.go
@@ -93,11 +93,7 @@ func (e *JSONEncoder) encodeTop(encode func()) {
 }
 
 func (e *JSONEncoder) error(message string) {
-	location := ""
-	if uri := e.resource.GetURI(); uri != nil {
-		location = uri.String()
-	}
-	e.errorFn(NewEDiagnosticImpl(message, location, 0, 0))
+	e.errorFn(NewEDiagnosticImpl(message, getResourceLocation(e.resource), 0, 0))
 }
 
 func (e *JSONEncoder) encodeObjects(objects EList) {
@@ -296,7 +292,9 @@ func (e *JSONEncoder) getReference(eObject EObject) string {
 				objectURI = e.getResourceReference(eOtherResource, eObject)
 			}
 		}
-		objectURI = e.resource.GetURI().Relativize(objectURI)
+		if uri := e.resource.GetURI(); uri != nil {
+			objectURI = uri.Relativize(objectURI)
+		}
 		return objectURI.String()
 	}
 	return ""
diff --git a/ecore/xmldecoder.go b/ecore/xmldecoder.go
index 89d47ca..ed9b37f 100644
--- a/ecore/xmldecoder.go
+++ b/ecore/xmldecoder.go
@@ -147,7 +147,7 @@ func (l *XMLDecoder) DecodeObject() (eObject EObject, err error) {
 func (l *XMLDecoder) decodeTopObject() {
 	defer func() {
 		if err := recover(); err != nil {
-			l.error(NewEDiagnosticImpl(fmt.Sprintf("invalid document: %v", err), l.resource.GetURI().String(), int(l.decoder.InputOffset()), 0))
+			l.error(NewEDiagnosticImpl(fmt.Sprintf("invalid document: %v", err), getResourceLocation(l.resource), int(l.decoder.InputOffset()), 0))
 		}
 	}()
 	hasRoot := false
@@ -155,10 +155,10 @@ func (l *XMLDecoder) decodeTopObject() {
 		t, tokenErr := l.decoder.Token()
 		if tokenErr != nil {
 			if tokenErr != io.EOF {
-				l.error(NewEDiagnosticImpl(tokenErr.Error(), l.resource.GetURI().String(), int(l.decoder.InputOffset()), 0))
+				l.error(NewEDiagnosticImpl(tokenErr.Error(), getResourceLocation(l.resource), int(l.decoder.InputOffset()), 0))
 			}
 			if tokenErr == io.EOF && !hasRoot {
-				l.error(NewEDiagnosticImpl("Root element not found", l.resource.GetURI().String(), int(l.decoder.InputOffset()), 0))
+				l.error(NewEDiagnosticImpl("Root element not found", getResourceLocation(l.resource), int(l.decoder.InputOffset()), 0))
 			}
 			break
 		}
@@ -166,7 +166,7 @@ func (l *XMLDecoder) decodeTopObject() {
 		case xml.StartElement:
 			if len(l.elements) == 0 {
 				if hasRoot {
-					l.error(NewEDiagnosticImpl("Unexpected second root element", l.resource.GetURI().String(), int(l.decoder.InputOffset()), 0))
+					l.error(NewEDiagnosticImpl("Unexpected second root element", getResourceLocation(l.resource), int(l.decoder.InputOffset()), 0))
 					return
 				}
 				hasRoot = true
@@ -176,7 +176,7 @@ func (l *XMLDecoder) decodeTopObject() {
 			l.endElement(t)
 		case xml.CharData:
 			if len(l.elements) == 0 && len(bytes.TrimSpace(bytes.TrimPrefix(t, []byte("\uFEFF")))) > 0 {
-				l.error(NewEDiagnosticImpl("Unexpected text outside of the root element", l.resource.GetURI().String(), int(l.decoder.InputOffset()), 0))
+				l.error(NewEDiagnosticImpl("Unexpected text outside of the root element", getResourceLocation(l.resource), int(l.decoder.InputOffset()), 0))
 			}
 			l.text(string([]byte(t)))
 		case xml.Comment:
@@ -340,7 +340,7 @@ func (l *XMLDecoder) processElement(space string, local string) {
 
 func (l *XMLDecoder) validateObject(eObject EObject, space, typeName string) {
 	if eObject == nil {
-		l.error(NewEDiagnosticImpl("Class {'"+space+"':'"+typeName+"'} not found", l.resource.GetURI().String(), int(l.decoder.InputOffset()), 0))
+		l.error(NewEDiagnosticImpl("Class {'"+space+"':'"+typeName+"'} not found", getResourceLocation(l.resource), int(l.decoder.InputOffset()), 0))
 	}
 }
 
@@ -533,7 +533,7 @@ func (l *XMLDecoder) setFeatureValue(eObject EObject,
 func (l *XMLDecoder) checkReferenceValue(eObject EObject, eFeature EStructuralFeature, value any) bool {
 	err := checkReferenceValue(eObject, eFeature, value.(EObject))
 	if err != nil {
-		l.error(NewEDiagnosticImpl(err.Error(), l.resource.GetURI().String(), int(l.decoder.InputOffset()), 0))
+		l.error(NewEDiagnosticImpl(err.Error(), getResourceLocation(l.resource), int(l.decoder.InputOffset()), 0))
 	}
 	return err == nil
 }
@@ -541,7 +541,7 @@ func (l *XMLDecoder) checkReferenceValue(eObject EObject, eFeature EStructuralFe
 func (l *XMLDecoder) createFromString(eFeature EStructuralFeature, literal string) (value any, ok bool) {
 	defer func() {
 		if err := recover(); err != nil {
-			l.error(NewEDiagnosticImpl(fmt.Sprintf("Feature %v has an invalid value '%v': %v", eFeature.GetName(), literal, err), l.resource.GetURI().String(), int(l.decoder.InputOffset()), 0))
+			l.error(NewEDiagnosticImpl(fmt.Sprintf("Feature %v has an invalid value '%v': %v", eFeature.GetName(), literal, err), getResourceLocation(l.resource), int(l.decoder.InputOffset()), 0))
 		}
 	}()
 	eDataType := eFeature.GetEType().(EDataType)
@@ -576,7 +576,7 @@ func (l *XMLDecoder) handleAttributes(eObject EObject) {
 			if name == l.idAttributeName {
 				if idManager := l.resource.GetObjectIDManager(); idManager != nil {
 					if err := idManager.SetID(eObject, value); err != nil {
-						l.error(NewEDiagnosticImpl(err.Error(), l.resource.GetURI().String(), int(l.decoder.InputOffset()), 0))
+						l.error(NewEDiagnosticImpl(err.Error(), getResourceLocation(l.resource), int(l.decoder.InputOffset()), 0))
 					}
 				}
 			} else if name == href {
@@ -723,18 +723,15 @@ func (l *XMLDecoder) handleProxy(eProxy EObject, id string) {
 		l.error(NewEDiagnosticImpl("Invalid reference '"+id+"': "+ok.Error(), "", int(l.decoder.InputOffset()), 0))
 		return
 	}
-	if resourceURI == nil {
-		return
-	}
 	// resolve reference uri
-	if !uri.IsAbsolute() {
+	if resourceURI != nil && !uri.IsAbsolute() {
 		uri = resourceURI.Resolve(uri)
 	}
 
 	// set object proxy uri
 	eProxy.(EObjectInternal).ESetProxyURI(uri)
 
-	if resourceURI.Equals(uri.TrimFragment()) {
+	if documentURI := uri.TrimFragment(); resourceURI == nil && documentURI.IsEmpty() || resourceURI != nil && resourceURI.Equals(documentURI) {
 		l.sameDocumentProxies = append(l.sameDocumentProxies, eProxy)
 	}
 }
@@ -743,7 +740,7 @@ func (l *XMLDecoder) handleReferences() {
 	for _, eProxy := range l.sameDocumentProxies {
 		if eProxy := eProxy.(EObjectInternal); eProxy.EInternalContainer() != nil && eProxy.EContainmentFeature() != nil || eProxy.EInternalResource() != nil {
 			// an object of the document is contained where it is
-			l.error(NewEDiagnosticImpl("Invalid containment of '"+eProxy.EProxyURI().String()+"'", l.resource.GetURI().String(), int(l.decoder.InputOffset()), 0))
+			l.error(NewEDiagnosticImpl("Invalid containment of '"+eProxy.EProxyURI().String()+"'", getResourceLocation(l.resource), int(l.decoder.InputOffset()), 0))
 			eProxy.ESetProxyURI(nil)
 			continue
 		}
@@ -813,7 +810,7 @@ func (l *XMLDecoder) handleReferences() {
 			}
 		} else {
 			l.error(NewEDiagnosticImpl(
-				"Unresolved reference '"+reference.id+"'", l.resource.GetURI().String(), int(l.decoder.InputOffset()), 0))
+				"Unresolved reference '"+reference.id+"'", getResourceLocation(l.resource), int(l.decoder.InputOffset()), 0))
 		}
 	}
 }
@@ -853,11 +850,11 @@ func (l *XMLDecoder) getType(ePackage EPackage, name string) EClassifier {
 }
 
 func (l *XMLDecoder) handleUnknownFeature(name string) {
-	l.error(NewEDiagnosticImpl("Feature "+name+" not found", l.resource.GetURI().String(), int(l.decoder.InputOffset()), 0))
+	l.error(NewEDiagnosticImpl("Feature "+name+" not found", getResourceLocation(l.resource), int(l.decoder.InputOffset()), 0))
 }
 
 func (l *XMLDecoder) handleUnknownPackage(name, space string) {
-	l.error(NewEDiagnosticImpl("Package {'"+name+"'='"+space+"'} not found", l.resource.GetURI().String(), int(l.decoder.InputOffset()), 0))
+	l.error(NewEDiagnosticImpl("Package {'"+name+"'='"+space+"'} not found", getResourceLocation(l.resource), int(l.decoder.InputOffset()), 0))
 }
 
 func (l *XMLDecoder) error(diagnostic EDiagnostic) {
diff --git a/ecore/xmlencoder.go b/ecore/xmlencoder.go
index 6389613..ee467e3 100644
--- a/ecore/xmlencoder.go
+++ b/ecore/xmlencoder.go
@@ -138,7 +138,7 @@ func (s *XMLEncoder) EncodeObject(eObject EObject) (err error) {
 // recover gives an error for a value that can't be saved
 func (s *XMLEncoder) recover() {
 	if err := recover(); err != nil {
-		s.error(NewEDiagnosticImpl(fmt.Sprintf("unable to save: %v", err), s.resource.GetURI().String(), 0, 0))
+		s.error(NewEDiagnosticImpl(fmt.Sprintf("unable to save: %v", err), getResourceLocation(s.resource), 0, 0))
 	}
 }
 
@@ -165,7 +165,7 @@ func (s *XMLEncoder) writeDocument() {
 
 	// write result
 	if err := s.str.write(s.w); err != nil {
-		s.error(NewEDiagnosticImpl(err.Error(), s.resource.GetURI().String(), 0, 0))
+		s.error(NewEDiagnosticImpl(err.Error(), getResourceLocation(s.resource), 0, 0))
 	}
 }
 
@@ -414,7 +414,7 @@ func (s *XMLEncoder) checkText(eFeature EStructuralFeature, text string) {
 		valid = valid && (r >= 0x20 && r != 0xFFFE && r != 0xFFFF || r == '\t' || r == '\n' || r == '\r')
 	}
 	if !valid {
-		s.error(NewEDiagnosticImpl(fmt.Sprintf("Feature '%v' has a value %q with characters that are not allowed in xml.", eFeature.GetName(), text), s.resource.GetURI().String(), 0, 0))
+		s.error(NewEDiagnosticImpl(fmt.Sprintf("Feature '%v' has a value %q with characters that are not allowed in xml.", eFeature.GetName(), text), getResourceLocation(s.resource), 0, 0))
 	}
 }
 
@@ -767,7 +767,9 @@ func (s *XMLEncoder) getHRef(eObject EObject) string {
 				objectURI = s.getResourceHRef(eOtherResource, eObject)
 			}
 		}
-		objectURI = s.resource.GetURI().Relativize(objectURI)
+		if uri := s.resource.GetURI(); uri != nil {
+			objectURI = uri.Relativize(objectURI)
+		}
 		return objectURI.String()
 	}
 	return ""
@@ -790,7 +792,7 @@ func (s *XMLEncoder) getIDRef(eObject EObject) string {
 }
 
 func (s *XMLEncoder) handleDanglingHREF(eObject EObject) {
-	s.error(NewEDiagnosticImpl(fmt.Sprintf("Object '%p' is not contained in a resource.", eObject), s.resource.GetURI().String(), 0, 0))
+	s.error(NewEDiagnosticImpl(fmt.Sprintf("Object '%p' is not contained in a resource.", eObject), getResourceLocation(s.resource), 0, 0))
 }
 
 func (s *XMLEncoder) error(diagnostic EDiagnostic) {
-- 
2.43.0


From e2f54e71b92f04193384f626005622ff916c0c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:40 +0000
Subject: [PATCH 41/69] fix: unloading a resource left its objects in it and
 its listeners untold

---
 ecore/eresource_impl.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ecore/eresource_impl.go b/ecore/eresource_impl.go
index b8304f1..95243d9 100644
--- a/ecore/eresource_impl.go
+++ b/ecore/eresource_impl.go
@@ -495,9 +495,16 @@ func (r *EResourceImpl) Unload() {
 }
 
 func (r *EResourceImpl) DoUnload() {
-	r.contents = nil
-	r.errors = nil
-	r.warnings = nil
+	// this guard is needed to ensure that clear doesn't notify when there is nothing to clear
+	if r.contents != nil && !r.contents.Empty() {
+		r.contents.Clear()
+	}
+	if r.errors != nil {
+		r.errors.Clear()
+	}
+	if r.warnings != nil {
+		r.warnings.Clear()
+	}
 	if r.objectIDManager != nil {
 		r.objectIDManager.Clear()
 	}
-- 
2.43.0


From 68d743717accea5848895f9bd4f1f1471ed66b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:40 +0000
Subject: [PATCH 42/69] fix: with a URI-resource map, removed and renamed
 resources were still found

---
 ecore/eresourceset_impl.go | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/ecore/eresourceset_impl.go b/ecore/eresourceset_impl.go
index c4de8bc..03d91de 100644
--- a/ecore/eresourceset_impl.go
+++ b/ecore/eresourceset_impl.go
@@ -67,28 +67,27 @@ func (r *EResourceSetImpl) GetResources() EList {
 }
 
 func (r *EResourceSetImpl) GetResource(uri *URI, loadOnDemand bool) EResource {
-	if r.uriResourceMap != nil {
-		resource := r.uriResourceMap[uri]
-		if resource != nil {
-			if loadOnDemand && !resource.IsLoaded() {
-				resource.Load()
-			}
-			return resource
-		}
-	}
-
 	ePackage := r.GetPackageRegistry().GetPackage(uri.String())
 	if ePackage != nil {
 		resource := ePackage.EResource()
 		if resource != nil {
-			if r.uriResourceMap != nil {
-				r.uriResourceMap[uri] = resource
-			}
 			return resource
 		}
 	}
 
 	normalizedURI := r.GetURIConverter().Normalize(uri)
+	if r.uriResourceMap != nil {
+		if resource := r.uriResourceMap[uri]; resource != nil {
+			// the resource may have been removed or renamed since
+			if resource.GetResourceSet() == r.AsEResourceSet() && normalizedURI.Equals(r.GetURIConverter().Normalize(resource.GetURI())) {
+				if loadOnDemand && !resource.IsLoaded() {
+					resource.Load()
+				}
+				return resource
+			}
+			delete(r.uriResourceMap, uri)
+		}
+	}
 	for it := r.resources.Iterator(); it.HasNext(); {
 		resource := it.Next().(EResource)
 		resourceURI := r.GetURIConverter().Normalize(resource.GetURI())
-- 
2.43.0


From 0626d063d458f568bf4a501bd70eb7cb4b960cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:40 +0000
Subject: [PATCH 43/69] fix: an empty XMI resource was saved as a document that
 can't be loaded

---
 ecore/xmlencoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecore/xmlencoder.go b/ecore/xmlencoder.go
index ee467e3..7618bca 100644
--- a/ecore/xmlencoder.go
+++ b/ecore/xmlencoder.go
@@ -113,14 +113,14 @@ func (s *XMLEncoder) EncodeResource() {
 	if contents == nil {
 		contents = s.resource.GetContents()
 	}
-	if contents.Empty() {
-		return
-	}
 	defer s.recover()
 	s.interfaces.(xmlEncoderInternal).encodeTopObjects(contents)
 }
 
 func (s *XMLEncoder) encodeTopObjects(eObjects EList) {
+	if eObjects.Empty() {
+		return
+	}
 	s.encodeTopObject(eObjects.Get(0).(EObject))
 }
 
-- 
2.43.0


From f0dfe56b6a36a2195a49f9fb85bcd5c2814b2046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:40 +0000
Subject: [PATCH 44/69] fix: the text of a relative URI whose path has a colon
 was the text of another URI

---
 ecore/uri.go | 58 ++++++++++------------------------------------------
 1 file changed, 11 insertions(+), 47 deletions(-)

diff --git a/ecore/uri.go b/ecore/uri.go
index 4123a97..f933515 100644
--- a/ecore/uri.go
+++ b/ecore/uri.go
@@ -162,7 +162,13 @@ func NewURIFromComponents(scheme string, username string, password string, host
 			s.WriteString(port)
 		}
 	}
-	s.WriteString(pathEscaper.Replace(path))
+	escapedPath := pathEscaper.Replace(path)
+	if s.Len() == 0 {
+		// a colon in the first segment would end a scheme
+		first, _, _ := strings.Cut(escapedPath, "/")
+		escapedPath = strings.ReplaceAll(first, ":", "%3A") + escapedPath[len(first):]
+	}
+	s.WriteString(escapedPath)
 	if len(query) > 0 {
 		s.WriteRune('?')
 		s.WriteString(query)
@@ -377,8 +383,8 @@ func (uri *URI) Relativize(ref *URI) *URI {
 		return ref
 	}
 
-	bp := strings.TrimPrefix(normalize(uri.path), "./")
-	cp := strings.TrimPrefix(normalize(ref.path), "./")
+	bp := normalize(uri.path)
+	cp := normalize(ref.path)
 	if strings.HasPrefix(bp, "/") != strings.HasPrefix(cp, "/") {
 		return ref
 	}
@@ -403,8 +409,8 @@ func (uri *URI) Relativize(ref *URI) *URI {
 			}
 		}
 		path = up + cp[len(dir):]
-		// a path can't be empty and can't start with something like a scheme
-		if first, _, _ := strings.Cut(path, "/"); len(path) == 0 || len(first) == 0 || strings.Contains(first, ":") {
+		// a path can't be empty and can't start with an empty segment
+		if len(path) == 0 || path[0] == '/' {
 			path = "./" + path
 		}
 	}
@@ -479,9 +485,6 @@ func normalize(path string) string {
 	// Remove dots
 	removeDots(runes, segs)
 
-	// Prevent scheme-name confusion
-	maybeAddLeadingDot(runes, segs)
-
 	// Join the remaining segments and return the result
 	newSize := join(runes, segs)
 	runes = runes[0:newSize]
@@ -667,45 +670,6 @@ func removeDots(path []rune, segs []int) {
 	}
 }
 
-// DEVIATION: If the normalized path is relative, and if the first
-// segment could be parsed as a scheme name, then prepend a "." segment
-func maybeAddLeadingDot(path []rune, segs []int) {
-	if path[0] == rune(0) {
-		// The path is absolute
-		return
-	}
-
-	ns := len(segs)
-	f := 0 // Index of first segment
-	for f < ns {
-		if segs[f] >= 0 {
-			break
-		}
-		f++
-	}
-
-	if f >= ns || f == 0 {
-		// The path is empty, or else the original first segment survived,
-		// in which case we already know that no leading "." is needed
-		return
-	}
-	p := segs[f]
-	for p < len(path) && path[p] != ':' && path[p] != rune(0) {
-		p++
-	}
-
-	if p >= len(path) || path[p] == rune(0) {
-		// No colon in first segment, so no "." needed
-		return
-	}
-
-	// At this point we know that the first segment is unused,
-	// hence we can insert a "." segment at that position
-	path[0] = '.'
-	path[1] = rune(0)
-	segs[0] = 0
-}
-
 // Join the segments in the given path according to the given segment-index
 // array, ignoring those segments whose index entries have been set to -1,
 // and inserting slashes as needed.  Return the length of the resulting
-- 
2.43.0


From 1554cf9be7801a570b45e76551efe60d20ae9055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:50 +0000
Subject: [PATCH 45/69] fix: concurrent readers of a class or package race on
 the lists created at first use

---
 ecore/eclass_ext.go     | 4 ++++
 ecore/eenum_ext.go      | 6 ++++++
 ecore/eoperation_ext.go | 6 ++++++
 ecore/epackage_ext.go   | 3 +++
 4 files changed, 19 insertions(+)

diff --git a/ecore/eclass_ext.go b/ecore/eclass_ext.go
index d84d60a..4d132cc 100644
--- a/ecore/eclass_ext.go
+++ b/ecore/eclass_ext.go
@@ -116,6 +116,10 @@ func (eClass *EClassExt) Initialize() {
 	eClass.EClassImpl.Initialize()
 	eClass.adapter = &eSuperAdapter{class: eClass}
 	eClass.EAdapters().Add(eClass.adapter)
+	// lists are created once and for all: several goroutines may ask for them
+	eClass.EClassImpl.GetESuperTypes()
+	eClass.EClassImpl.GetEStructuralFeatures()
+	eClass.EClassImpl.GetEOperations()
 }
 
 func (eClass *EClassExt) IsSuperTypeOf(someClass EClass) bool {
diff --git a/ecore/eenum_ext.go b/ecore/eenum_ext.go
index 9bcd199..0b33341 100644
--- a/ecore/eenum_ext.go
+++ b/ecore/eenum_ext.go
@@ -20,6 +20,12 @@ func newEEnumExt() *EEnumExt {
 	return eEnum
 }
 
+func (eEnum *EEnumExt) Initialize() {
+	eEnum.EEnumImpl.Initialize()
+	// the list is created once and for all: several goroutines may ask for it
+	eEnum.EEnumImpl.GetELiterals()
+}
+
 func (eEnum *EEnumExt) GetDefaultValue() any {
 	if eLiterals := eEnum.GetELiterals(); !eLiterals.Empty() {
 		eLiteral := eLiterals.Get(0).(EEnumLiteral)
diff --git a/ecore/eoperation_ext.go b/ecore/eoperation_ext.go
index 2a4ccf5..02b25c2 100644
--- a/ecore/eoperation_ext.go
+++ b/ecore/eoperation_ext.go
@@ -21,6 +21,12 @@ func newEOperationExt() *EOperationExt {
 	return eOperation
 }
 
+func (eOperation *EOperationExt) Initialize() {
+	eOperation.EOperationImpl.Initialize()
+	// the list is created once and for all: several goroutines may ask for it
+	eOperation.EOperationImpl.GetEParameters()
+}
+
 func (eOperation *EOperationExt) IsOverrideOf(otherOperation EOperation) bool {
 	otherContainingClass := otherOperation.GetEContainingClass()
 	if otherContainingClass != nil && otherContainingClass.IsSuperTypeOf(eOperation.GetEContainingClass()) && otherOperation.GetName() == eOperation.GetName() {
diff --git a/ecore/epackage_ext.go b/ecore/epackage_ext.go
index 2f5c1ee..06bbb15 100644
--- a/ecore/epackage_ext.go
+++ b/ecore/epackage_ext.go
@@ -46,6 +46,9 @@ func (pack *EPackageExt) Initialize() {
 	pack.SetEFactoryInstance(newEFactoryExt())
 	pack.adapter = &ePackageExtAdapter{pack: pack}
 	pack.EAdapters().Add(pack.adapter)
+	// lists are created once and for all: several goroutines may ask for them
+	pack.EPackageImpl.GetEClassifiers()
+	pack.EPackageImpl.GetESubPackages()
 }
 
 func (pack *EPackageExt) GetEClassifier(classifier string) EClassifier {
-- 
2.43.0


From 4cdd4c03111d56e3fae324d6329908dc12d1cb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:50 +0000
Subject: [PATCH 46/69] fix: concurrent readers of a classifier race on its ID,
 which also gets outdated

---
 ecore/eclassifier_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/eclassifier_impl.go b/ecore/eclassifier_impl.go
index e148fd1..e713eed 100644
--- a/ecore/eclassifier_impl.go
+++ b/ecore/eclassifier_impl.go
@@ -66,7 +66,7 @@ func (e *EClassifierImpl) IsInstance(any) bool {
 // GetClassifierID get the value of classifierID
 func (e *EClassifierImpl) GetClassifierID() int {
 	if e.classifierID == -1 {
-		e.classifierID = e.asInitializers().initClassifierID()
+		return e.asInitializers().initClassifierID()
 	}
 	return e.classifierID
 }
-- 
2.43.0


From c5cd161424137b87f207ef5d14608ff7a5b5e287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:50 +0000
Subject: [PATCH 47/69] fix: concurrent readers of a reference race on its type

---
 ecore/ereference_ext.go | 33 ++++-----------------------------
 1 file changed, 4 insertions(+), 29 deletions(-)

diff --git a/ecore/ereference_ext.go b/ecore/ereference_ext.go
index 8bf280c..590bae5 100644
--- a/ecore/ereference_ext.go
+++ b/ecore/ereference_ext.go
@@ -12,7 +12,6 @@ package ecore
 // EReferenceExt is the extension of the model object 'EReference'
 type EReferenceExt struct {
 	EReferenceImpl
-	eReferenceType EClass
 }
 
 func newEReferenceExt() *EReferenceExt {
@@ -45,36 +44,12 @@ func (eReference *EReferenceExt) SetEOpposite(newEOpposite EReference) {
 	eReference.setClassModified()
 }
 
-// SetEType set the value of eType
-func (eReference *EReferenceExt) SetEType(newEType EClassifier) {
-	eReference.eReferenceType = nil
-	eReference.EReferenceImpl.SetEType(newEType)
-}
-
-// UnsetEType unset the value of eType
-func (eReference *EReferenceExt) UnsetEType() {
-	eReference.eReferenceType = nil
-	eReference.EReferenceImpl.UnsetEType()
-}
-
 func (eReference *EReferenceExt) GetEReferenceType() EClass {
-	if eReference.eReferenceType == nil || eReference.eReferenceType.EIsProxy() {
-		eType := eReference.GetEType()
-		eReferenceType, _ := eType.(EClass)
-		if eReferenceType != nil {
-			eReference.eReferenceType = eReferenceType
-		}
-	}
-	return eReference.eReferenceType
+	eReferenceType, _ := eReference.GetEType().(EClass)
+	return eReferenceType
 }
 
 func (eReference *EReferenceExt) basicGetEReferenceType() EClass {
-	if eReference.eReferenceType == nil {
-		eType := eReference.basicGetEType()
-		eReferenceType, _ := eType.(EClass)
-		if eReferenceType != nil {
-			eReference.eReferenceType = eReferenceType
-		}
-	}
-	return eReference.eReferenceType
+	eReferenceType, _ := eReference.basicGetEType().(EClass)
+	return eReferenceType
 }
-- 
2.43.0


From a3ccaafe55037798992e02dd5ecc2a51a5d19eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:50 +0000
Subject: [PATCH 48/69] fix: concurrent readers of a feature race on its ID and
 default value

---
 ecore/estructuralfeature_ext.go  | 32 ++++++++++++++++++++++++++------
 ecore/estructuralfeature_impl.go |  8 ++++++++
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/ecore/estructuralfeature_ext.go b/ecore/estructuralfeature_ext.go
index 03a6249..8d73939 100644
--- a/ecore/estructuralfeature_ext.go
+++ b/ecore/estructuralfeature_ext.go
@@ -9,11 +9,14 @@
 
 package ecore
 
+import "sync"
+
 // EStructuralFeatureExt is the extension of the model object 'EStructuralFeature'
 type EStructuralFeatureExt struct {
 	EStructuralFeatureImpl
 	defaultValue        any
 	defaultValueFactory EFactory
+	defaultValueMutex   sync.Mutex
 }
 
 func newEStructuralFeatureExt() *EStructuralFeatureExt {
@@ -35,13 +38,28 @@ func (eStructuralFeature *EStructuralFeatureExt) GetDefaultValue() any {
 		}
 	} else if eDataType, _ := eType.(EDataType); eDataType != nil {
 		if ePackage := eType.GetEPackage(); ePackage != nil {
-			if factory := ePackage.GetEFactoryInstance(); factory != eStructuralFeature.defaultValueFactory {
-				if eDataType.IsSerializable() {
-					eStructuralFeature.defaultValue = factory.CreateFromString(eDataType, defaultValueLiteral)
-				}
-				eStructuralFeature.defaultValueFactory = factory
+			factory := ePackage.GetEFactoryInstance()
+			eStructuralFeature.defaultValueMutex.Lock()
+			defaultValue, isComputed := eStructuralFeature.defaultValue, factory == eStructuralFeature.defaultValueFactory
+			eStructuralFeature.defaultValueMutex.Unlock()
+			if isComputed {
+				return defaultValue
+			}
+			// without holding the mutex: the factory is free to ask for anything
+			isSerializable := eDataType.IsSerializable()
+			if isSerializable {
+				defaultValue = factory.CreateFromString(eDataType, defaultValueLiteral)
+			}
+			eStructuralFeature.defaultValueMutex.Lock()
+			if isSerializable {
+				eStructuralFeature.defaultValue = defaultValue
 			}
+			eStructuralFeature.defaultValueFactory = factory
+			eStructuralFeature.defaultValueMutex.Unlock()
+			return defaultValue
 		}
+		eStructuralFeature.defaultValueMutex.Lock()
+		defer eStructuralFeature.defaultValueMutex.Unlock()
 		return eStructuralFeature.defaultValue
 	}
 	return nil
@@ -104,11 +122,13 @@ func (eStructuralFeature *EStructuralFeatureExt) setClassModified() {
 
 // GetFeatureID get the value of featureID
 func (eStructuralFeature *EStructuralFeatureExt) GetFeatureID() int {
-	return eStructuralFeature.featureID
+	return eStructuralFeature.EStructuralFeatureImpl.GetFeatureID()
 }
 
 // SetFeatureID set the value of featureID
 func (eStructuralFeature *EStructuralFeatureExt) SetFeatureID(newFeatureID int) {
+	eStructuralFeature.featureIDMutex.Lock()
+	defer eStructuralFeature.featureIDMutex.Unlock()
 	eStructuralFeature.featureID = newFeatureID
 }
 
diff --git a/ecore/estructuralfeature_impl.go b/ecore/estructuralfeature_impl.go
index d817b67..ecb39d6 100644
--- a/ecore/estructuralfeature_impl.go
+++ b/ecore/estructuralfeature_impl.go
@@ -13,6 +13,7 @@ package ecore
 
 import (
 	"reflect"
+	"sync"
 )
 
 // EStructuralFeatureImpl is the implementation of the model object 'EStructuralFeature'
@@ -20,6 +21,7 @@ type EStructuralFeatureImpl struct {
 	ETypedElementExt
 	defaultValueLiteral string
 	featureID           int
+	featureIDMutex      sync.RWMutex
 	isChangeable        bool
 	isDerived           bool
 	isTransient         bool
@@ -99,13 +101,17 @@ func (e *EStructuralFeatureImpl) GetEContainingClass() EClass {
 
 // GetFeatureID get the value of featureID
 func (e *EStructuralFeatureImpl) GetFeatureID() int {
+	e.featureIDMutex.RLock()
+	defer e.featureIDMutex.RUnlock()
 	return e.featureID
 }
 
 // SetFeatureID set the value of featureID
 func (e *EStructuralFeatureImpl) SetFeatureID(newFeatureID int) {
+	e.featureIDMutex.Lock()
 	oldFeatureID := e.featureID
 	e.featureID = newFeatureID
+	e.featureIDMutex.Unlock()
 	if e.ENotificationRequired() {
 		e.ENotify(NewNotificationByFeatureID(e.AsEObject(), SET, ESTRUCTURAL_FEATURE__FEATURE_ID, oldFeatureID, newFeatureID, NO_INDEX))
 	}
@@ -265,6 +271,8 @@ func (e *EStructuralFeatureImpl) EIsSetFromID(featureID int) bool {
 	case ESTRUCTURAL_FEATURE__ECONTAINING_CLASS:
 		return e.asEStructuralFeature().GetEContainingClass() != nil
 	case ESTRUCTURAL_FEATURE__FEATURE_ID:
+		e.featureIDMutex.RLock()
+		defer e.featureIDMutex.RUnlock()
 		return e.featureID != -1
 	case ESTRUCTURAL_FEATURE__TRANSIENT:
 		return e.isTransient != false
-- 
2.43.0


From 1803c98663e141dfc0cc82bb9a76bb806ce34227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:50 +0000
Subject: [PATCH 49/69] fix: concurrent users race on the URI cache and the
 registries created at first use

---
 ecore/ecodecregistry.go   |  7 +++++--
 ecore/epackageregistry.go |  7 +++++--
 ecore/uri.go              | 10 ++--------
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/ecore/ecodecregistry.go b/ecore/ecodecregistry.go
index c1c1d5e..15c2a98 100644
--- a/ecore/ecodecregistry.go
+++ b/ecore/ecodecregistry.go
@@ -9,6 +9,8 @@
 
 package ecore
 
+import "sync"
+
 const (
 	DEFAULT_EXTENSION = "*"
 )
@@ -19,10 +21,11 @@ type ECodecRegistry interface {
 	GetExtensionToCodecMap() map[string]ECodec
 }
 
+var resourceCodecRegistryOnce sync.Once
 var resourceCodecRegistryInstance ECodecRegistry
 
 func GetCodecRegistry() ECodecRegistry {
-	if resourceCodecRegistryInstance == nil {
+	resourceCodecRegistryOnce.Do(func() {
 		resourceCodecRegistryInstance = NewECodecRegistryImpl()
 		// initialize with default codecs
 		extensionToCodecs := resourceCodecRegistryInstance.GetExtensionToCodecMap()
@@ -32,6 +35,6 @@ func GetCodecRegistry() ECodecRegistry {
 		extensionToCodecs["sqlite"] = &SQLCodec{}
 		protocolToCodecs := resourceCodecRegistryInstance.GetProtocolToCodecMap()
 		protocolToCodecs["memory"] = &NoCodec{}
-	}
+	})
 	return resourceCodecRegistryInstance
 }
diff --git a/ecore/epackageregistry.go b/ecore/epackageregistry.go
index fedfbb1..401b42a 100644
--- a/ecore/epackageregistry.go
+++ b/ecore/epackageregistry.go
@@ -9,6 +9,8 @@
 
 package ecore
 
+import "sync"
+
 type EPackageRegistry interface {
 	PutPackage(nsURI string, pack EPackage)
 	PutSupplier(nsURI string, supplier func() EPackage)
@@ -21,12 +23,13 @@ type EPackageRegistry interface {
 	GetFactory(nsURI string) EFactory
 }
 
+var packageRegistryOnce sync.Once
 var packageRegistryInstance EPackageRegistry
 
 func GetPackageRegistry() EPackageRegistry {
-	if packageRegistryInstance == nil {
+	packageRegistryOnce.Do(func() {
 		packageRegistryInstance = NewEPackageRegistryImpl()
 		packageRegistryInstance.RegisterPackage(GetPackage())
-	}
+	})
 	return packageRegistryInstance
 }
diff --git a/ecore/uri.go b/ecore/uri.go
index f933515..d8e8512 100644
--- a/ecore/uri.go
+++ b/ecore/uri.go
@@ -13,6 +13,7 @@ import (
 	"net/url"
 	"path/filepath"
 	"strings"
+	"sync"
 
 	"github.com/KarpelesLab/weak"
 )
@@ -119,14 +120,7 @@ type URI struct {
 	rawURI   string
 }
 
-var uriCache *weak.Map[string, URI]
-
-func getURICache() *weak.Map[string, URI] {
-	if uriCache == nil {
-		uriCache = weak.NewMap[string, URI]()
-	}
-	return uriCache
-}
+var getURICache = sync.OnceValue(weak.NewMap[string, URI])
 
 // characters that have to be escaped in the text of a component so that the component can be found again
 var (
-- 
2.43.0


From 66485487500cea070ab2cc08a973a0c0f559fa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:11 +0000
Subject: [PATCH 50/69] fix: a list modified for the first time creates the
 adapters of its owner, which races with other users

---
 ecore/basicenotifyinglist.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecore/basicenotifyinglist.go b/ecore/basicenotifyinglist.go
index b6ca2bb..2a030f9 100644
--- a/ecore/basicenotifyinglist.go
+++ b/ecore/basicenotifyinglist.go
@@ -96,6 +96,10 @@ func (list *BasicENotifyingList) createNotification(eventType EventType, oldValu
 
 func (list *BasicENotifyingList) isNotificationRequired() bool {
 	notifier := list.asENotifyingList().GetNotifier()
+	if internal, _ := notifier.(ENotifierInternal); internal != nil && !internal.EBasicHasAdapters() {
+		// don't create adapters
+		return false
+	}
 	return notifier != nil && notifier.EDeliver() && !notifier.EAdapters().Empty()
 }
 
-- 
2.43.0


From 7f281768d918515333dac32c025dda15a96a5e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:11 +0000
Subject: [PATCH 51/69] fix: a store object or list stays locked for ever after
 a panic of an operation

---
 ecore/estoreeobject_impl.go |  8 ++++----
 ecore/estorelist.go         | 20 ++++++++++----------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/ecore/estoreeobject_impl.go b/ecore/estoreeobject_impl.go
index 37d13dc..7f26db0 100644
--- a/ecore/estoreeobject_impl.go
+++ b/ecore/estoreeobject_impl.go
@@ -66,6 +66,7 @@ func (o *EStoreEObjectImpl) GetEStore() EStore {
 
 func (o *EStoreEObjectImpl) SetEStore(newStore EStore) {
 	o.mutex.Lock()
+	defer o.mutex.Unlock()
 	if oldStore := o.store; newStore != oldStore {
 		// set store to object and its children
 		if newStore == nil {
@@ -98,7 +99,6 @@ func (o *EStoreEObjectImpl) SetEStore(newStore EStore) {
 			}
 		}
 	}
-	o.mutex.Unlock()
 }
 
 // set the store of the collections in properties
@@ -137,6 +137,7 @@ func (o *EStoreEObjectImpl) clearStoredProperties(keepCollections bool) {
 
 func (o *EStoreEObjectImpl) SetCache(cache bool) {
 	o.mutex.Lock()
+	defer o.mutex.Unlock()
 	if o.cache != cache {
 		o.cache = cache
 
@@ -150,7 +151,6 @@ func (o *EStoreEObjectImpl) SetCache(cache bool) {
 			o.clearStoredProperties(true)
 		}
 	}
-	o.mutex.Unlock()
 }
 
 func (o *EStoreEObjectImpl) IsCache() bool {
@@ -267,6 +267,7 @@ func (o *EStoreEObjectImpl) EDynamicGet(dynamicFeatureID int) any {
 
 func (o *EStoreEObjectImpl) EDynamicSet(dynamicFeatureID int, value any) {
 	o.mutex.Lock()
+	defer o.mutex.Unlock()
 	// retrieve properties
 	var properties []any
 	eFeature := o.eDynamicFeature(dynamicFeatureID)
@@ -286,11 +287,11 @@ func (o *EStoreEObjectImpl) EDynamicSet(dynamicFeatureID int, value any) {
 	if properties != nil {
 		properties[dynamicFeatureID] = value
 	}
-	o.mutex.Unlock()
 }
 
 func (o *EStoreEObjectImpl) EDynamicUnset(dynamicFeatureID int) {
 	o.mutex.Lock()
+	defer o.mutex.Unlock()
 	// retrieve previous value and unset properties
 	if o.properties != nil {
 		o.properties[dynamicFeatureID] = nil
@@ -300,7 +301,6 @@ func (o *EStoreEObjectImpl) EDynamicUnset(dynamicFeatureID int) {
 	if store != nil && !eFeature.IsTransient() {
 		store.UnSet(o.AsEObject(), eFeature)
 	}
-	o.mutex.Unlock()
 }
 
 func (o *EStoreEObjectImpl) eDynamicFeature(dynamicFeatureID int) EStructuralFeature {
diff --git a/ecore/estorelist.go b/ecore/estorelist.go
index a9ea030..44100c7 100644
--- a/ecore/estorelist.go
+++ b/ecore/estorelist.go
@@ -119,6 +119,7 @@ func (list *EStoreList) GetEStore() EStore {
 
 func (list *EStoreList) SetEStore(newStore EStore) {
 	list.mutex.Lock()
+	defer list.mutex.Unlock()
 	if oldStore := list.store; oldStore != newStore {
 		list.store = newStore
 		if newStore == nil {
@@ -136,12 +137,12 @@ func (list *EStoreList) SetEStore(newStore EStore) {
 			}
 		}
 	}
-	list.mutex.Unlock()
 }
 
 // Set object with a cache for its feature values
 func (list *EStoreList) SetCache(cache bool) {
 	list.mutex.Lock()
+	defer list.mutex.Unlock()
 	if list.cache != cache {
 		list.cache = cache
 		var data []any
@@ -176,7 +177,6 @@ func (list *EStoreList) SetCache(cache bool) {
 			}
 		}
 	}
-	list.mutex.Unlock()
 }
 
 // Returns true if object is caching feature values
@@ -188,6 +188,7 @@ func (list *EStoreList) IsCache() bool {
 
 func (list *EStoreList) performAdd(object any) {
 	list.mutex.Lock()
+	defer list.mutex.Unlock()
 	index := list.size
 	// add to data
 	if list.data != nil {
@@ -206,11 +207,11 @@ func (list *EStoreList) performAdd(object any) {
 	}
 	// update size
 	list.size++
-	list.mutex.Unlock()
 }
 
 func (list *EStoreList) performInsert(index int, object any) {
 	list.mutex.Lock()
+	defer list.mutex.Unlock()
 	// add to cache
 	if list.data != nil {
 		list.BasicENotifyingList.performInsert(index, object)
@@ -227,7 +228,6 @@ func (list *EStoreList) performInsert(index int, object any) {
 	}
 	// size
 	list.size++
-	list.mutex.Unlock()
 }
 
 func (list *EStoreList) performInsertAll(index int, c Collection) bool {
@@ -259,6 +259,7 @@ func (list *EStoreList) performInsertAll(index int, c Collection) bool {
 
 func (list *EStoreList) performClear() []any {
 	list.mutex.Lock()
+	defer list.mutex.Unlock()
 	var result []any
 
 	//cache
@@ -281,12 +282,12 @@ func (list *EStoreList) performClear() []any {
 	}
 	// size
 	list.size = 0
-	list.mutex.Unlock()
 	return result
 }
 
 func (list *EStoreList) performRemove(index int) any {
 	list.mutex.Lock()
+	defer list.mutex.Unlock()
 	var result any
 
 	//cache
@@ -308,12 +309,12 @@ func (list *EStoreList) performRemove(index int) any {
 	}
 	// size
 	list.size--
-	list.mutex.Unlock()
 	return result
 }
 
 func (list *EStoreList) performRemoveRange(fromIndex int, toIndex int) []any {
 	list.mutex.Lock()
+	defer list.mutex.Unlock()
 	var result []any
 
 	// cache
@@ -338,12 +339,12 @@ func (list *EStoreList) performRemoveRange(fromIndex int, toIndex int) []any {
 	}
 	// size
 	list.size -= len(result)
-	list.mutex.Unlock()
 	return result
 }
 
 func (list *EStoreList) performSet(index int, object any) any {
 	list.mutex.Lock()
+	defer list.mutex.Unlock()
 	// cache
 	var result any
 	if list.data != nil {
@@ -361,12 +362,12 @@ func (list *EStoreList) performSet(index int, object any) any {
 			_ = list.store.Set(list.owner, list.feature, index, object, false)
 		}
 	}
-	list.mutex.Unlock()
 	return result
 }
 
 func (list *EStoreList) performMove(oldIndex, newIndex int) any {
 	list.mutex.Lock()
+	defer list.mutex.Unlock()
 	var result any
 	if list.data != nil {
 		result = list.BasicENotifyingList.performMove(oldIndex, newIndex)
@@ -381,7 +382,6 @@ func (list *EStoreList) performMove(oldIndex, newIndex int) any {
 			_ = list.store.Move(list.owner, list.feature, oldIndex, newIndex, false)
 		}
 	}
-	list.mutex.Unlock()
 	return result
 }
 
@@ -432,6 +432,7 @@ func (list *EStoreList) resolveProxy(eObject EObject) EObject {
 func (list *EStoreList) All() iter.Seq[any] {
 	return func(yield func(any) bool) {
 		list.mutex.Lock()
+		defer list.mutex.Unlock()
 		if list.data != nil {
 			for i, v := range list.data {
 				if d := list.resolve(i, v); !yield(d) {
@@ -447,7 +448,6 @@ func (list *EStoreList) All() iter.Seq[any] {
 				i++
 			}
 		}
-		list.mutex.Unlock()
 	}
 }
 
-- 
2.43.0


From c1fbc08c83c7a5355f7372548492a8548b64d38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:11 +0000
Subject: [PATCH 52/69] fix: searching a store list reads its elements without
 its lock

---
 ecore/estorelist.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecore/estorelist.go b/ecore/estorelist.go
index 44100c7..8f3aece 100644
--- a/ecore/estorelist.go
+++ b/ecore/estorelist.go
@@ -513,11 +513,11 @@ func (list *EStoreList) IndexOf(element any) int {
 }
 
 func (list *EStoreList) Contains(element any) bool {
+	list.mutex.Lock()
+	defer list.mutex.Unlock()
 	if list.data != nil {
 		return list.BasicENotifyingList.Contains(element)
 	} else if list.store != nil {
-		list.mutex.Lock()
-		defer list.mutex.Unlock()
 		if list.store.Contains(list.owner, list.feature, element) {
 			return true
 		} else if list.object && list.proxies {
-- 
2.43.0


From e2a4b18dcd00db48032cd8e4b9c7287d549b5fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:11 +0000
Subject: [PATCH 53/69] fix: concurrent readers of a store object race on its
 container and contents

---
 ecore/estoreeobject_impl.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ecore/estoreeobject_impl.go b/ecore/estoreeobject_impl.go
index 7f26db0..0ea7e7b 100644
--- a/ecore/estoreeobject_impl.go
+++ b/ecore/estoreeobject_impl.go
@@ -160,20 +160,38 @@ func (o *EStoreEObjectImpl) IsCache() bool {
 }
 
 func (o *EStoreEObjectImpl) ESetInternalContainer(newContainer EObject, newContainerFeatureID int) {
+	o.mutex.Lock()
+	defer o.mutex.Unlock()
 	o.ReflectiveEObjectImpl.ESetInternalContainer(newContainer, newContainerFeatureID)
 	o.setContainerInStore()
 }
 
 func (o *EStoreEObjectImpl) EInternalContainer() EObject {
+	o.mutex.Lock()
+	defer o.mutex.Unlock()
 	o.initializeContainerFromStore()
 	return o.ReflectiveEObjectImpl.EInternalContainer()
 }
 
 func (o *EStoreEObjectImpl) EInternalContainerFeatureID() int {
+	o.mutex.Lock()
+	defer o.mutex.Unlock()
 	o.initializeContainerFromStore()
 	return o.ReflectiveEObjectImpl.EInternalContainerFeatureID()
 }
 
+func (o *EStoreEObjectImpl) EContents() EList {
+	o.mutex.Lock()
+	defer o.mutex.Unlock()
+	return o.ReflectiveEObjectImpl.EContents()
+}
+
+func (o *EStoreEObjectImpl) ECrossReferences() EList {
+	o.mutex.Lock()
+	defer o.mutex.Unlock()
+	return o.ReflectiveEObjectImpl.ECrossReferences()
+}
+
 func (o *EStoreEObjectImpl) initializeContainerFromStore() {
 	if o.ReflectiveEObjectImpl.EInternalContainer() == unitializedContainer {
 		if o.store != nil {
-- 
2.43.0


From 93070710a5c34375e63090e0e4af353acc547126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:40 +0000
Subject: [PATCH 54/69] fix: SQL connections are back in their pool when a
 query ends

---
 ecore/sqlbase.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/ecore/sqlbase.go b/ecore/sqlbase.go
index 7647ac1..d906c71 100644
--- a/ecore/sqlbase.go
+++ b/ecore/sqlbase.go
@@ -199,19 +199,12 @@ func (s *sqlBase) executeSqlite(fn executeQueryFn, cmd string, opts *sqlitex.Exe
 		}
 
 		// execute query
-		conn, err := s.connPool.Take(context.Background())
-		if err != nil {
-			reject(err)
-			return
-		}
-		defer s.connPool.Put(conn)
-
 		loggerArgs := []zap.Field{zap.Int64("id", q.id), zap.Int64("goid", goid), zap.String("query", cmd)}
 		if opts != nil {
 			loggerArgs = append(loggerArgs, zap.Any("args", opts.Args))
 		}
 		s.logger.Log(zap.DebugLevel, "executing", loggerArgs...)
-		if err := fn(conn, cmd, opts); err != nil {
+		if err := s.executeInPool(fn, cmd, opts); err != nil {
 			s.logger.Error("executed", append(loggerArgs, zap.Error(err))...)
 			reject(err)
 			return
@@ -266,6 +259,18 @@ func (s *sqlBase) executeSqlite(fn executeQueryFn, cmd string, opts *sqlitex.Exe
 	return err
 }
 
+// execute sqlite cmd in a connection of the pool
+// connection is back in the pool when it returns : a pool which is closed interrupts
+// the connections which are still used, and may leave changes out of the database file
+func (s *sqlBase) executeInPool(fn executeQueryFn, cmd string, opts *sqlitex.ExecOptions) error {
+	conn, err := s.connPool.Take(context.Background())
+	if err != nil {
+		return err
+	}
+	defer s.connPool.Put(conn)
+	return fn(conn, cmd, opts)
+}
+
 func (d *sqlBase) executeQuery(query string, opts *sqlitex.ExecOptions) error {
 	return d.executeSqlite(sqlitex.Execute, query, opts)
 }
-- 
2.43.0


From 27e0450ec73711e36501a7183ae5525a1d6259ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:40 +0000
Subject: [PATCH 55/69] fix: SQL encoder reports references to objects which
 are in no resource

---
 ecore/sqlencoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecore/sqlencoder.go b/ecore/sqlencoder.go
index 5634fdf..bd8e6ba 100644
--- a/ecore/sqlencoder.go
+++ b/ecore/sqlencoder.go
@@ -429,6 +429,9 @@ func (e *sqlEncoder) encodeFeatureValue(containerID int64, featureData *sqlEncod
 			if sqlID != 0 {
 				return strconv.FormatInt(sqlID, 10), nil
 			} else {
+				if !eObject.EIsProxy() && eObject.EResource() == nil {
+					return nil, fmt.Errorf("the object '%s' is not contained in a resource", eObject.EClass().GetName())
+				}
 				ref := GetURI(eObject)
 				uri := e.uri.Relativize(ref)
 				return uri.String(), nil
-- 
2.43.0


From 799f28c3280db5178b77de248e2fc0632b1535ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:40 +0000
Subject: [PATCH 56/69] fix: SQL encoder keeps fractions of seconds of dates

---
 ecore/sqlencoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/sqlencoder.go b/ecore/sqlencoder.go
index bd8e6ba..d5ebc48 100644
--- a/ecore/sqlencoder.go
+++ b/ecore/sqlencoder.go
@@ -448,7 +448,7 @@ func (e *sqlEncoder) encodeFeatureValue(containerID int64, featureData *sqlEncod
 			return value, nil
 		case sfkDate:
 			t := value.(*time.Time)
-			return t.Format(time.RFC3339), nil
+			return t.Format(time.RFC3339Nano), nil
 		case sfkData, sfkDataList:
 			return featureData.factory.ConvertToString(featureData.dataType, value), nil
 		}
-- 
2.43.0


From c1836ea32f829dec71e7bfadbfe8e6be4d901ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:40 +0000
Subject: [PATCH 57/69] fix: SQL encoder encodes all contents of a resource

---
 ecore/sqlencoder.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ecore/sqlencoder.go b/ecore/sqlencoder.go
index d5ebc48..373302f 100644
--- a/ecore/sqlencoder.go
+++ b/ecore/sqlencoder.go
@@ -896,9 +896,8 @@ func (e *SQLEncoder) EncodeResource() {
 	}
 
 	// encode contents into db
-	if contents := e.resource.GetContents(); !contents.Empty() {
-		object := contents.Get(0).(EObject)
-		if err := e.encodeContent(object); err != nil {
+	for content := range e.resource.GetContents().All() {
+		if err := e.encodeContent(content.(EObject)); err != nil {
 			e.addError(err)
 			return
 		}
-- 
2.43.0


From 46b51300783e5edcd1248260f195751b82c935c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:41 +0000
Subject: [PATCH 58/69] fix: SQL decoder reads object ids after container ids

---
 ecore/sqldecoder.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecore/sqldecoder.go b/ecore/sqldecoder.go
index 5f8a7d2..e33b3ef 100644
--- a/ecore/sqldecoder.go
+++ b/ecore/sqldecoder.go
@@ -983,10 +983,12 @@ func (d *SQLDecoder) decodeObjects() error {
 				// set its id
 				if d.objectIDManager != nil {
 					if d.isObjectID {
-						switch stmt.ColumnType(2) {
+						// last column
+						column := len(d.schema.objectsTable.columns) - 1
+						switch stmt.ColumnType(column) {
 						case sqlite.TypeNull:
 						case sqlite.TypeText:
-							objectID := stmt.ColumnText(2)
+							objectID := stmt.ColumnText(column)
 							if err := d.objectIDManager.SetID(eObject, objectID); err != nil {
 								return err
 							}
-- 
2.43.0


From e644755800ec27a3ea64ed0d270557c6ebc09aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:41 +0000
Subject: [PATCH 59/69] fix: SQL decoder leaves features unset and references
 as they were saved

---
 ecore/sqldecoder.go | 183 ++++++++++++++++++++++++++++++--------------
 1 file changed, 125 insertions(+), 58 deletions(-)

diff --git a/ecore/sqldecoder.go b/ecore/sqldecoder.go
index e33b3ef..a1dbd06 100644
--- a/ecore/sqldecoder.go
+++ b/ecore/sqldecoder.go
@@ -1,12 +1,14 @@
 package ecore
 
 import (
+	"cmp"
 	"context"
 	"errors"
 	"fmt"
 	"io"
 	"os"
 	"path/filepath"
+	"slices"
 	"strconv"
 	"time"
 
@@ -577,6 +579,8 @@ type SQLDecoder struct {
 	resource     EResource
 	withFeatures bool
 	withObjects  bool
+	classIDs     map[EClass]int64
+	references   []*sqlFeatureValues
 }
 
 const SQLITE_MAX_ALLOCATION_SIZE = 2147483391
@@ -797,6 +801,7 @@ func newSQLDecoder(connectionPoolProvider func() (*sqlitex.Pool, error), connect
 		resource:     resource,
 		withFeatures: withFeatures,
 		withObjects:  withObjects,
+		classIDs:     map[EClass]int64{},
 	}
 	d.setLogger(logger)
 	return d
@@ -859,6 +864,11 @@ func (d *SQLDecoder) DecodeResource() {
 		d.addError(err)
 		return
 	}
+
+	if err := d.decodeReferences(); err != nil {
+		d.addError(err)
+		return
+	}
 }
 
 func (d *SQLDecoder) DecodeObject() (EObject, error) {
@@ -948,6 +958,7 @@ func (d *SQLDecoder) decodeClasses() error {
 				}
 
 				d.sqlIDManager.SetClassID(eClass, classID)
+				d.classIDs[eClass] = classID
 
 				d.classDataMap[eClass] = &sqlDecoderClassData{
 					eClass:   eClass,
@@ -1005,23 +1016,45 @@ func (d *SQLDecoder) decodeObjects() error {
 		})
 }
 
+// sqlFeatureValues are the values read from a database for a feature of an object
+type sqlFeatureValues struct {
+	object  EObject
+	feature *sqlFeatureSchema
+	values  []any
+}
+
+// isReference returns true if values refer to objects which are not contained:
+// they are set once all objects are in the resource
+func (v *sqlFeatureValues) isReference() bool {
+	eReference, _ := v.feature.feature.(EReference)
+	return eReference != nil && !eReference.IsContainment()
+}
+
 func (d *SQLDecoder) decodeFeatures() error {
+	// classes in the order of the database
+	classes := make([]EClass, 0, len(d.classDataMap))
+	for eClass := range d.classDataMap {
+		classes = append(classes, eClass)
+	}
+	slices.SortFunc(classes, func(a, b EClass) int {
+		return cmp.Compare(d.classIDs[a], d.classIDs[b])
+	})
+
 	decoded := map[EClass]struct{}{}
-	decoding := []*promise.Promise[any]{}
+	decoding := []*promise.Promise[[]*sqlFeatureValues]{}
 	// for each leaf class
-	for _, classData := range d.classDataMap {
-		eClass := classData.eClass
+	for _, eClass := range classes {
 		itSuper := eClass.GetEAllSuperTypes().Iterator()
 		for eClass != nil {
 			// decode class features
 			decodingClass := eClass
 			if _, isDecoded := decoded[decodingClass]; !isDecoded {
 				decoded[decodingClass] = struct{}{}
-				decoding = append(decoding, promise.NewWithPool(func(resolve func(any), reject func(error)) {
-					if err := d.decodeClassFeatures(decodingClass); err != nil {
+				decoding = append(decoding, promise.NewWithPool(func(resolve func([]*sqlFeatureValues), reject func(error)) {
+					if values, err := d.decodeClassFeatures(decodingClass); err != nil {
 						reject(err)
 					} else {
-						resolve(nil)
+						resolve(values)
 					}
 				}, d.promisePool))
 			}
@@ -1034,36 +1067,50 @@ func (d *SQLDecoder) decodeFeatures() error {
 			}
 		}
 	}
-	if len(decoding) > 0 {
-		_, err := promise.AllWithPool(context.Background(), d.promisePool, decoding...).Await(context.Background())
+	// classes are read concurrently but their values are set sequentially :
+	// setting a value may modify other objects
+	for _, p := range decoding {
+		classValues, err := p.Await(context.Background())
 		if err != nil {
 			return err
 		}
+		for _, featureValues := range *classValues {
+			if featureValues.isReference() {
+				d.references = append(d.references, featureValues)
+			} else if err := d.setFeatureValues(featureValues); err != nil {
+				return err
+			}
+		}
 	}
 	return nil
 }
 
-func (d *SQLDecoder) decodeClassFeatures(eClass EClass) error {
+func (d *SQLDecoder) decodeClassFeatures(eClass EClass) (values []*sqlFeatureValues, err error) {
 	classSchema := d.schema.getClassSchema(eClass)
 	columnFeatures := []*sqlFeatureSchema{}
 	for _, featureData := range classSchema.features {
 		if featureData.column != nil {
 			columnFeatures = append(columnFeatures, featureData)
 		} else if featureData.table != nil {
-			if err := d.decodeTableFeature(featureData.table, featureData); err != nil {
-				return err
+			tableValues, err := d.decodeTableFeature(featureData.table, featureData)
+			if err != nil {
+				return nil, err
 			}
+			values = append(values, tableValues...)
 		}
 	}
-
-	return d.decodeColumnFeatures(classSchema.table, columnFeatures)
+	columnValues, err := d.decodeColumnFeatures(classSchema.table, columnFeatures)
+	if err != nil {
+		return nil, err
+	}
+	return append(values, columnValues...), nil
 }
 
-func (d *SQLDecoder) decodeColumnFeatures(table *sqlTable, columnFeatures []*sqlFeatureSchema) error {
+func (d *SQLDecoder) decodeColumnFeatures(table *sqlTable, columnFeatures []*sqlFeatureSchema) (values []*sqlFeatureValues, err error) {
 	if len(columnFeatures) == 0 {
-		return nil
+		return nil, nil
 	}
-	return d.executeQuery(
+	err = d.executeQuery(
 		table.selectQuery(nil, "", ""),
 		&sqlitex.ExecOptions{
 			ResultFunc: func(stmt *sqlite.Stmt) error {
@@ -1075,73 +1122,93 @@ func (d *SQLDecoder) decodeColumnFeatures(table *sqlTable, columnFeatures []*sql
 
 				// for each column
 				for i, columnData := range columnFeatures {
-					value := decodeAny(stmt, i+1)
-					columnValue, err := d.decodeFeatureValue(columnData, value)
-					if err != nil {
-						return err
-					}
-					// column value is nil, if column is not set
-					// so use default value
-					if columnValue != nil {
-						eObject.ESet(columnData.feature, columnValue)
+					// column value is nil, if feature is not set
+					if value := decodeAny(stmt, i+1); value != nil {
+						values = append(values, &sqlFeatureValues{object: eObject, feature: columnData, values: []any{value}})
 					}
 				}
 				return nil
 			},
 		})
+	return
 }
 
-func (d *SQLDecoder) decodeTableFeature(table *sqlTable, tableFeature *sqlFeatureSchema) error {
-	column := sqlEscapeIdentifier(table.columns[len(table.columns)-1].columnName)
-	query := table.selectQuery([]string{table.keyName(), column}, "", table.keyName()+" ASC, idx ASC")
-	feature := tableFeature.feature
-	values := []any{}
-	var id int64 = -1
-	if err := d.executeQuery(
+func (d *SQLDecoder) decodeTableFeature(table *sqlTable, tableFeature *sqlFeatureSchema) (values []*sqlFeatureValues, err error) {
+	column := table.columns[len(table.columns)-1].columnName
+	query := table.selectQuery([]string{table.key.columnName, column}, "", table.keyName()+" ASC, idx ASC")
+	var current *sqlFeatureValues
+	err = d.executeQuery(
 		query,
 		&sqlitex.ExecOptions{
 			ResultFunc: func(stmt *sqlite.Stmt) error {
 				// object id
 				objectID := stmt.ColumnInt64(0)
-				value := decodeAny(stmt, 1)
-				decoded, err := d.decodeFeatureValue(tableFeature, value)
-				if err != nil {
-					return err
+				eObject, _ := d.sqlIDManager.GetObjectFromID(objectID)
+				if eObject == nil {
+					return fmt.Errorf("unable to find object with id '%v'", objectID)
 				}
-
-				if id == -1 {
-					id = objectID
-				} else if id != objectID {
-					if err := d.decodeFeatureList(id, feature, values); err != nil {
-						return err
-					}
-					values = nil
+				if current == nil || current.object != eObject {
+					current = &sqlFeatureValues{object: eObject, feature: tableFeature}
+					values = append(values, current)
 				}
-				id = objectID
-				values = append(values, decoded)
+				current.values = append(current.values, decodeAny(stmt, 1))
 				return nil
 			},
-		}); err != nil {
-		return err
-	}
-	if id != -1 {
-		if err := d.decodeFeatureList(id, feature, values); err != nil {
+		})
+	return
+}
+
+func (d *SQLDecoder) decodeReferences() error {
+	for _, featureValues := range d.references {
+		if err := d.setFeatureValues(featureValues); err != nil {
 			return err
 		}
 	}
+	d.references = nil
 	return nil
 }
 
-func (d *SQLDecoder) decodeFeatureList(objectID int64, feature EStructuralFeature, values []any) error {
-	if len(values) == 0 {
+func (d *SQLDecoder) decodeValue(featureData *sqlFeatureSchema, value any) (any, error) {
+	if reference, isString := value.(string); isString && (featureData.featureKind == sfkObjectReference || featureData.featureKind == sfkObjectReferenceList) {
+		// a reference to an object of this resource, by its uri
+		if uri := d.resolveURI(NewURI(reference)); uri.Fragment() != "" && (d.uri == nil && uri.TrimFragment().IsEmpty() || uri.TrimFragment().Equals(d.uri)) {
+			if eObject := d.resource.GetEObject(uri.Fragment()); eObject != nil {
+				return eObject, nil
+			}
+		}
+	}
+	return d.decodeFeatureValue(featureData, value)
+}
+
+func (d *SQLDecoder) setFeatureValues(featureValues *sqlFeatureValues) error {
+	feature := featureValues.feature.feature
+	values := make([]any, 0, len(featureValues.values))
+	for _, value := range featureValues.values {
+		decoded, err := d.decodeValue(featureValues.feature, value)
+		if err != nil {
+			return err
+		}
+		values = append(values, decoded)
+	}
+	if !feature.IsMany() {
+		if values[0] != nil {
+			featureValues.object.ESet(feature, values[0])
+		}
 		return nil
 	}
-	eObject, _ := d.sqlIDManager.GetObjectFromID(objectID)
-	if eObject == nil {
-		return fmt.Errorf("unable to find object with id '%v'", objectID)
+	eList := featureValues.object.EGetResolve(feature, false).(EList)
+	if eReference, _ := feature.(EReference); eReference == nil || eReference.GetEOpposite() == nil {
+		eList.AddAll(NewImmutableEList(values))
+		return nil
+	}
+	// some values may already be there because of their opposite
+	for index, value := range values {
+		if previous := eList.IndexOf(value); previous != -1 {
+			eList.Move(previous, index)
+		} else {
+			eList.Insert(index, value)
+		}
 	}
-	eList := eObject.EGetResolve(feature, false).(EList)
-	eList.AddAll(NewImmutableEList(values))
 	return nil
 }
 
-- 
2.43.0


From 6d6486f3688c24578aff9498e569fa448ec76258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:49 +0000
Subject: [PATCH 60/69] fix: SQL store tells unset a feature which has no
 value, and only such a feature

---
 ecore/sqlstore.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/ecore/sqlstore.go b/ecore/sqlstore.go
index d24f07c..13deeff 100644
--- a/ecore/sqlstore.go
+++ b/ecore/sqlstore.go
@@ -1386,7 +1386,7 @@ func (s *SQLStore) doGet(object EObject, feature EStructuralFeature, index int)
 	}
 	featureSchema, err := s.getFeatureSchema(object, feature)
 	if err != nil {
-		return err, nil
+		return nil, err
 	}
 	return s.getValue(sqlObjectID, featureSchema, index)
 }
@@ -1411,9 +1411,15 @@ func (s *SQLStore) getValue(sqlID int64, featureSchema *sqlFeatureSchema, index
 				value = decodeAny(stmt, 0)
 				return nil
 			}}); err != nil {
-		return err, nil
+		return nil, err
+	}
+	if value == nil {
+		// feature is unset
+		if feature := featureSchema.feature; !feature.IsMany() {
+			return feature.GetDefaultValue(), nil
+		}
+		return nil, nil
 	}
-
 	return s.decodeFeatureValue(featureSchema, value)
 }
 
@@ -1511,7 +1517,8 @@ func (s *SQLStore) doIsSet(object EObject, feature EStructuralFeature) (bool, er
 				}}); err != nil {
 			return false, err
 		}
-		return value != featureSchema.feature.GetDefaultValue(), nil
+		// feature is unset if there is no value
+		return value != nil, nil
 	} else if featureTable := featureSchema.table; featureTable != nil {
 		isSet := false
 		if err := s.executeQuery(
@@ -1554,7 +1561,7 @@ func (s *SQLStore) doUnSet(object EObject, feature EStructuralFeature) (any, err
 	var args []any
 	if featureColumn := featureData.schema.column; featureColumn != nil {
 		query = s.getSingleQueries(featureColumn).getUpdateQuery()
-		args = []any{feature.GetDefaultValue(), sqlObjectID}
+		args = []any{nil, sqlObjectID}
 	} else if featureTable := featureData.schema.table; featureTable != nil {
 		query = s.getManyQueries(featureTable).getClearQuery()
 		args = []any{sqlObjectID}
-- 
2.43.0


From ecca6179a5bd7b048e510477e1bd5989e968ffe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:49 +0000
Subject: [PATCH 61/69] fix: SQL store operations no longer overtake the
 encoding of their object

---
 ecore/sqlencoder.go | 14 ++++++------
 ecore/sqlstore.go   | 55 ++++++++++++++++++++++++++++++++-------------
 2 files changed, 47 insertions(+), 22 deletions(-)

diff --git a/ecore/sqlencoder.go b/ecore/sqlencoder.go
index 373302f..fda571c 100644
--- a/ecore/sqlencoder.go
+++ b/ecore/sqlencoder.go
@@ -295,6 +295,13 @@ func (e *sqlEncoder) encodeObject(eObject EObject, sqlContainerID int64, contain
 
 		logger.Debug("object encoding")
 
+		// lock object to ensure its object features values are not modified
+		// while encoding
+		if lockProvider, isLockProvider := eObject.(ELockProvider); isLockProvider {
+			lockProvider.Lock()
+			defer lockProvider.Unlock()
+		}
+
 		// encode object class
 		eClass := eObject.EClass()
 		classData, err := e.encodeClass(eClass)
@@ -344,13 +351,6 @@ func (e *sqlEncoder) encodeObject(eObject EObject, sqlContainerID int64, contain
 		// register object in registry
 		e.sqlIDManager.SetObjectID(eObject, sqlObjectID)
 
-		// lock object to ensure its object features values are not modified
-		// while encoding
-		if lockProvider, isLockProvider := eObject.(ELockProvider); isLockProvider {
-			lockProvider.Lock()
-			defer lockProvider.Unlock()
-		}
-
 		// for all object hierarchy classes
 		for _, eClass := range classData.hierarchy {
 			classData, err := e.getEncoderClassData(eClass)
diff --git a/ecore/sqlstore.go b/ecore/sqlstore.go
index 13deeff..51815da 100644
--- a/ecore/sqlstore.go
+++ b/ecore/sqlstore.go
@@ -966,6 +966,31 @@ func (s *SQLStore) getSQLID(eObject EObject) (int64, bool, error) {
 	return sqlObjectID, isSqlObjectID, nil
 }
 
+// get the sql id of the object of an operation
+func (s *SQLStore) getOperationSQLID(eObject EObject) (int64, bool, error) {
+	sqlObjectID, isSqlObjectID, err := s.getSQLID(eObject)
+	if isSqlObjectID {
+		s.waitEncoded(eObject)
+	}
+	return sqlObjectID, isSqlObjectID, err
+}
+
+// encode the object of an operation if needed and get its sql id
+func (s *SQLStore) encodeOperationSQLID(eObject EObject) (int64, error) {
+	sqlObjectID, err := s.encodeSQLID(eObject, -1, -1)
+	if err == nil {
+		s.waitEncoded(eObject)
+	}
+	return sqlObjectID, err
+}
+
+// an object has its id before it is fully encoded : if it is encoded by another goroutine
+// wait until all its rows are in the database
+func (s *SQLStore) waitEncoded(eObject EObject) {
+	s.sqlLockManager.lock(eObject)
+	s.sqlLockManager.unlock(eObject)
+}
+
 // encode object sql id
 func (s *SQLStore) encodeSQLID(eObject EObject, sqlContainerID int64, containerFeatureID int64) (int64, error) {
 	if sqlObjectID, isSqlObjectID, err := s.getSQLID(eObject); err != nil {
@@ -1378,7 +1403,7 @@ func (s *SQLStore) Get(object EObject, feature EStructuralFeature, index int) an
 
 func (s *SQLStore) doGet(object EObject, feature EStructuralFeature, index int) (any, error) {
 	// retrieve value from sqlite db
-	sqlObjectID, isSQLObjectID, err := s.getSQLID(object)
+	sqlObjectID, isSQLObjectID, err := s.getOperationSQLID(object)
 	if err != nil {
 		return nil, err
 	} else if !isSQLObjectID {
@@ -1437,7 +1462,7 @@ func (s *SQLStore) Set(object EObject, feature EStructuralFeature, index int, va
 
 func (s *SQLStore) doSet(object EObject, feature EStructuralFeature, index int, value any, needResult bool) (oldValue any, err error) {
 	// get object sql id
-	sqlObjectID, err := s.encodeSQLID(object, -1, -1)
+	sqlObjectID, err := s.encodeOperationSQLID(object)
 	if err != nil {
 		return nil, err
 	}
@@ -1495,7 +1520,7 @@ func (s *SQLStore) IsSet(object EObject, feature EStructuralFeature) bool {
 }
 
 func (s *SQLStore) doIsSet(object EObject, feature EStructuralFeature) (bool, error) {
-	sqlObjectID, isSQLObjectID, err := s.getSQLID(object)
+	sqlObjectID, isSQLObjectID, err := s.getOperationSQLID(object)
 	if err != nil {
 		return false, err
 	} else if !isSQLObjectID {
@@ -1547,7 +1572,7 @@ func (s *SQLStore) UnSet(object EObject, feature EStructuralFeature) {
 }
 
 func (s *SQLStore) doUnSet(object EObject, feature EStructuralFeature) (any, error) {
-	sqlObjectID, err := s.encodeSQLID(object, -1, -1)
+	sqlObjectID, err := s.encodeOperationSQLID(object)
 	if err != nil {
 		return nil, err
 	}
@@ -1583,7 +1608,7 @@ func (s *SQLStore) IsEmpty(object EObject, feature EStructuralFeature) bool {
 }
 
 func (s *SQLStore) doIsEmpty(object EObject, feature EStructuralFeature) (bool, error) {
-	sqlObjectID, isSQLObjectID, err := s.getSQLID(object)
+	sqlObjectID, isSQLObjectID, err := s.getOperationSQLID(object)
 	if err != nil {
 		return true, err
 	} else if !isSQLObjectID {
@@ -1622,7 +1647,7 @@ func (s *SQLStore) Size(object EObject, feature EStructuralFeature) int {
 }
 
 func (s *SQLStore) doSize(object EObject, feature EStructuralFeature) (int, error) {
-	sqlObjectID, isSQLObjectID, err := s.getSQLID(object)
+	sqlObjectID, isSQLObjectID, err := s.getOperationSQLID(object)
 	if err != nil {
 		return 0, err
 	} else if !isSQLObjectID {
@@ -1657,7 +1682,7 @@ func (s *SQLStore) Contains(object EObject, feature EStructuralFeature, value an
 }
 
 func (s *SQLStore) doContains(object EObject, feature EStructuralFeature, value any) (bool, error) {
-	sqlObjectID, isSQLObjectID, err := s.getSQLID(object)
+	sqlObjectID, isSQLObjectID, err := s.getOperationSQLID(object)
 	if err != nil {
 		return false, err
 	} else if !isSQLObjectID {
@@ -1691,7 +1716,7 @@ func (s *SQLStore) doContains(object EObject, feature EStructuralFeature, value
 }
 
 func (s *SQLStore) doIndexOf(object EObject, feature EStructuralFeature, value any, getIndexOfQuery func(*sqlManyQueries) string) (int, error) {
-	sqlObjectID, isSQLObjectID, err := s.getSQLID(object)
+	sqlObjectID, isSQLObjectID, err := s.getOperationSQLID(object)
 	if err != nil {
 		return -1, err
 	} else if !isSQLObjectID {
@@ -1783,7 +1808,7 @@ func (s *SQLStore) RemoveRoot(object EObject) {
 }
 
 func (s *SQLStore) doRemoveRoot(object EObject) (any, error) {
-	sqlObjectID, isSQLObjectID, err := s.getSQLID(object)
+	sqlObjectID, isSQLObjectID, err := s.getOperationSQLID(object)
 	if err != nil {
 		return nil, err
 	} else if !isSQLObjectID {
@@ -1874,7 +1899,7 @@ func (s *SQLStore) Add(object EObject, feature EStructuralFeature, index int, va
 }
 
 func (s *SQLStore) doAdd(object EObject, feature EStructuralFeature, index int, value any) (any, error) {
-	sqlObjectID, err := s.encodeSQLID(object, -1, -1)
+	sqlObjectID, err := s.encodeOperationSQLID(object)
 	if err != nil {
 		return nil, err
 	}
@@ -1909,7 +1934,7 @@ func (s *SQLStore) AddAll(object EObject, feature EStructuralFeature, index int,
 }
 
 func (s *SQLStore) doAddAll(object EObject, feature EStructuralFeature, index int, c Collection) (any, error) {
-	sqlObjectID, err := s.encodeSQLID(object, -1, -1)
+	sqlObjectID, err := s.encodeOperationSQLID(object)
 	if err != nil {
 		return nil, err
 	}
@@ -2006,7 +2031,7 @@ func (s *SQLStore) Remove(object EObject, feature EStructuralFeature, index int,
 }
 
 func (s *SQLStore) doRemove(object EObject, feature EStructuralFeature, index int, needResult bool) (decoded any, err error) {
-	sqlObjectID, err := s.encodeSQLID(object, -1, -1)
+	sqlObjectID, err := s.encodeOperationSQLID(object)
 	if err != nil {
 		return nil, err
 	}
@@ -2058,7 +2083,7 @@ func (s *SQLStore) Move(object EObject, feature EStructuralFeature, sourceIndex
 }
 
 func (s *SQLStore) doMove(object EObject, feature EStructuralFeature, sourceIndex int, targetIndex int, needResult bool) (decoded any, err error) {
-	sqlObjectID, err := s.encodeSQLID(object, -1, -1)
+	sqlObjectID, err := s.encodeOperationSQLID(object)
 	if err != nil {
 		return nil, err
 	}
@@ -2108,7 +2133,7 @@ func (s *SQLStore) Clear(object EObject, feature EStructuralFeature) {
 }
 
 func (s *SQLStore) doClear(object EObject, feature EStructuralFeature) (any, error) {
-	sqlObjectID, err := s.encodeSQLID(object, -1, -1)
+	sqlObjectID, err := s.encodeOperationSQLID(object)
 	if err != nil {
 		return nil, err
 	}
@@ -2145,7 +2170,7 @@ func (s *SQLStore) GetContainer(object EObject) (EObject, EStructuralFeature) {
 }
 
 func (s *SQLStore) doGetContainer(object EObject) (*containerAndFeature, error) {
-	sqlObjectID, isSQLObjectID, err := s.getSQLID(object)
+	sqlObjectID, isSQLObjectID, err := s.getOperationSQLID(object)
 	if err != nil {
 		return nil, err
 	} else if !isSQLObjectID {
-- 
2.43.0


From 64274e504ee620a93f7dbbbf84970dba6e502a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:50 +0000
Subject: [PATCH 62/69] fix: SQL store inserts elements where they should be

---
 ecore/sqlstore.go | 124 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 89 insertions(+), 35 deletions(-)

diff --git a/ecore/sqlstore.go b/ecore/sqlstore.go
index 51815da..113164d 100644
--- a/ecore/sqlstore.go
+++ b/ecore/sqlstore.go
@@ -98,6 +98,32 @@ type sqlManyQueries struct {
 	listIndexToIdx   string
 	removeQuery      string
 	insertQuery      string
+	rowsQuery        string
+	updateRowIdx     string
+}
+
+func (ss *sqlManyQueries) getRowsQuery() string {
+	if len(ss.rowsQuery) == 0 {
+		var query strings.Builder
+		query.WriteString("SELECT rowid,idx FROM ")
+		query.WriteString(sqlEscapeIdentifier(ss.table.name))
+		query.WriteString(" WHERE ")
+		query.WriteString(ss.table.keyName())
+		query.WriteString("=? ORDER BY idx ASC")
+		ss.rowsQuery = query.String()
+	}
+	return ss.rowsQuery
+}
+
+func (ss *sqlManyQueries) getUpdateRowIdxQuery() string {
+	if len(ss.updateRowIdx) == 0 {
+		var query strings.Builder
+		query.WriteString("UPDATE ")
+		query.WriteString(sqlEscapeIdentifier(ss.table.name))
+		query.WriteString(" SET idx=? WHERE rowid=?")
+		ss.updateRowIdx = query.String()
+	}
+	return ss.updateRowIdx
 }
 
 func (ss *sqlManyQueries) getInsertQuery() string {
@@ -1969,55 +1995,83 @@ func (s *SQLStore) doAddAll(object EObject, feature EStructuralFeature, index in
 // compute insert idx of element in the list whose index is index. nb is the number of elements to be inserted
 // return idx, increment (for each inserted element) and error if any
 func (s *SQLStore) getInsertIdx(table *sqlTable, sqlID int64, index int, nb int) (float64, float64, error) {
-	if index == 0 {
-		// first row in the list
-		idx := 1.0
-		withElements := false
-		if err := s.executeQuery(
-			s.getManyQueries(table).getListIndexToIdxQuery(),
-			&sqlitex.ExecOptions{
-				Args: []any{sqlID, 1, 0},
-				ResultFunc: func(stmt *sqlite.Stmt) error {
-					withElements = true
-					idx = stmt.ColumnFloat(0)
-					return nil
-				}}); err != nil {
-			return 0.0, 0.0, err
-		}
-		if withElements {
-			increment := 1.0 / (float64(nb) + 1)
-			return idx * increment, increment, nil
-		} else {
-			return 1.0, 1.0, nil
+	for isRenumbered := false; ; isRenumbered = true {
+		// idx of previous and next elements
+		previous, next := 0.0, 0.0
+		hasPrevious, hasNext := false, false
+		limit, offset := 2, index-1
+		if index == 0 {
+			limit, offset = 1, 0
 		}
-	} else {
-		count := 0
-		idx := 0.0
 		if err := s.executeQuery(
 			s.getManyQueries(table).getListIndexToIdxQuery(),
 			&sqlitex.ExecOptions{
-				Args: []any{sqlID, 2, index - 1},
+				Args: []any{sqlID, limit, offset},
 				ResultFunc: func(stmt *sqlite.Stmt) error {
-					idx += stmt.ColumnFloat(0)
-					count++
+					if index > 0 && !hasPrevious {
+						hasPrevious = true
+						previous = stmt.ColumnFloat(0)
+					} else {
+						hasNext = true
+						next = stmt.ColumnFloat(0)
+					}
 					return nil
 				}}); err != nil {
 			return 0.0, 0.0, err
 		}
-		switch count {
-		case 0:
+		if index > 0 && !hasPrevious {
 			return 0, 0, fmt.Errorf("invalid index in table %v for object %v : %v not in list bounds", table.name, sqlID, index)
-		case 1:
-			// at the end
-			return idx + 1, 1, nil
-		default:
-			// before
-			increment := 1.0 / (float64(nb) + 1)
-			return idx * increment, increment, nil
+		}
+
+		// at the end
+		if !hasNext {
+			return previous + 1, 1, nil
+		}
+
+		// before next
+		if !hasPrevious && next <= 0 {
+			previous = next - 1
+		}
+		increment := (next - previous) / (float64(nb) + 1)
+		first, last := previous+increment, previous+float64(nb)*increment
+		if isRenumbered || (previous < first && last < next && (nb == 1 || first+increment > first && last-increment < last)) {
+			return first, increment, nil
+		}
+
+		// there are not enough values between previous and next
+		if err := s.renumber(table, sqlID); err != nil {
+			return 0, 0, err
 		}
 	}
 }
 
+// set new idx for all the elements of a list
+func (s *SQLStore) renumber(table *sqlTable, sqlID int64) error {
+	rowIDs := []int64{}
+	last := 0.0
+	if err := s.executeQuery(
+		s.getManyQueries(table).getRowsQuery(),
+		&sqlitex.ExecOptions{
+			Args: []any{sqlID},
+			ResultFunc: func(stmt *sqlite.Stmt) error {
+				rowIDs = append(rowIDs, stmt.ColumnInt64(0))
+				last = stmt.ColumnFloat(1)
+				return nil
+			}}); err != nil {
+		return err
+	}
+	// backward, after last element, to keep elements in order
+	for i := len(rowIDs) - 1; i >= 0; i-- {
+		if err := s.executeQuery(
+			s.getManyQueries(table).getUpdateRowIdxQuery(),
+			&sqlitex.ExecOptions{Args: []any{math.Ceil(last) + float64(i) + 1, rowIDs[i]}},
+		); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (s *SQLStore) Remove(object EObject, feature EStructuralFeature, index int, needResult bool) any {
 	op := s.scheduleOperation(
 		context.Background(),
-- 
2.43.0


From 6f6a3abc3104b324f3fbd64a9017e7621cd24e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:50 +0000
Subject: [PATCH 63/69] fix: SQL store runs operations on roots, containers and
 collections in order

---
 ecore/sqlstore.go | 56 ++++++++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/ecore/sqlstore.go b/ecore/sqlstore.go
index 113164d..d3da44b 100644
--- a/ecore/sqlstore.go
+++ b/ecore/sqlstore.go
@@ -1192,9 +1192,20 @@ func (s *SQLStore) scheduleOperation(ctx context.Context, op *operation) *operat
 		}
 
 	}
-	if object, isObject := op.value.(EObject); isObject && object != op.object {
-		allObjects[object] = struct{}{}
-		allObjectFeatures = append(allObjectFeatures, objectFeature{object, nil})
+	addValue := func(value any) {
+		if object, isObject := value.(EObject); isObject {
+			if _, isAdded := allObjects[object]; !isAdded {
+				allObjects[object] = struct{}{}
+				allObjectFeatures = append(allObjectFeatures, objectFeature{object, nil})
+			}
+		}
+	}
+	if collection, isCollection := op.value.(Collection); isCollection {
+		for it := collection.Iterator(); it.HasNext(); {
+			addValue(it.Next())
+		}
+	} else {
+		addValue(op.value)
 	}
 
 	// lock operations
@@ -1202,11 +1213,14 @@ func (s *SQLStore) scheduleOperation(ctx context.Context, op *operation) *operat
 
 	// register operation for all objects and and compute previous operations to wait for
 	previous := map[*operation]struct{}{}
-	registeredObjectFeatures := []objectFeature{}
+	registeredObjectFeatures := map[objectFeature]struct{}{}
 	for _, lof := range allObjectFeatures {
 		for of := range s.objectFeaturesIterator(lof) {
-			registeredObjectFeatures = append(registeredObjectFeatures, of)
-			if po := s.registerOperation(of.object, of.feature, op); po != nil {
+			if _, isRegistered := registeredObjectFeatures[of]; isRegistered {
+				continue
+			}
+			registeredObjectFeatures[of] = struct{}{}
+			for _, po := range s.registerOperation(of.object, of.feature, op) {
 				previous[po] = struct{}{}
 			}
 		}
@@ -1295,7 +1309,7 @@ func (s *SQLStore) scheduleOperation(ctx context.Context, op *operation) *operat
 		s.mutexOperations.Lock()
 		defer s.mutexOperations.Unlock()
 
-		for _, of := range registeredObjectFeatures {
+		for of := range registeredObjectFeatures {
 			if err := s.unregisterOperation(of.object, of.feature, op); err != nil {
 				handleError(err)
 				return
@@ -1340,7 +1354,7 @@ func (s *SQLStore) getLastOperation(type_ operationType, object EObject, feature
 	return nil
 }
 
-func (s *SQLStore) registerOperation(object EObject, feature EStructuralFeature, op *operation) (previous *operation) {
+func (s *SQLStore) registerOperation(object EObject, feature EStructuralFeature, op *operation) (previous []*operation) {
 	// get operations for object-feature
 	objectOperations := s.objectOperations[object]
 	if objectOperations == nil {
@@ -1353,19 +1367,15 @@ func (s *SQLStore) registerOperation(object EObject, feature EStructuralFeature,
 		objectOperations[feature] = operations
 	}
 
-	// compute previous operation
-	switch op.type_ {
-	case operationRead:
-		for i := len(operations) - 1; i >= 0; i-- {
-			operation := operations[i]
-			if operation.type_ == operationWrite {
-				previous = operation
-				break
-			}
+	// compute previous operations
+	for i := len(operations) - 1; i >= 0; i-- {
+		operation := operations[i]
+		isWrite := operation.type_ == operationWrite
+		if isWrite || op.type_ == operationWrite {
+			previous = append(previous, operation)
 		}
-	case operationWrite:
-		if len(operations) > 0 {
-			previous = operations[len(operations)-1]
+		if isWrite {
+			break
 		}
 	}
 
@@ -1817,7 +1827,7 @@ func (s *SQLStore) LastIndexOf(object EObject, feature EStructuralFeature, value
 
 // AddRoot add object as store root
 func (s *SQLStore) AddRoot(object EObject) {
-	s.scheduleOperation(context.Background(), newOperation("AddRoot", operationWrite, nil, nil, false, -1, nil, func() (any, error) {
+	s.scheduleOperation(context.Background(), newOperation("AddRoot", operationWrite, nil, nil, false, -1, object, func() (any, error) {
 		return s.doAddRoot(object)
 	}))
 }
@@ -1828,7 +1838,7 @@ func (s *SQLStore) doAddRoot(object EObject) (any, error) {
 
 // RemoveRoot implements EStore.
 func (s *SQLStore) RemoveRoot(object EObject) {
-	s.scheduleOperation(context.Background(), newOperation("RemoveRoot", operationWrite, nil, nil, false, -1, nil, func() (any, error) {
+	s.scheduleOperation(context.Background(), newOperation("RemoveRoot", operationWrite, nil, nil, false, -1, object, func() (any, error) {
 		return s.doRemoveRoot(object)
 	}))
 }
@@ -2285,7 +2295,7 @@ func (s *SQLStore) SetContainer(object EObject, container EObject, feature EStru
 	if sync {
 		_, _ = s.doSetContainer(object, container, feature)
 	} else {
-		s.scheduleOperation(context.Background(), newOperation("SetContainer", operationWrite, object, feature, false, -1, container, func() (any, error) {
+		s.scheduleOperation(context.Background(), newOperation("SetContainer", operationWrite, object, nil, false, -1, container, func() (any, error) {
 			return s.doSetContainer(object, container, feature)
 		}))
 	}
-- 
2.43.0


From 59095cf318eaf15b337e7fc982774b69f6960142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:50 +0000
Subject: [PATCH 64/69] fix: SQL store adds the elements a collection has when
 it is added

---
 ecore/sqlstore.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecore/sqlstore.go b/ecore/sqlstore.go
index d3da44b..f84ae6d 100644
--- a/ecore/sqlstore.go
+++ b/ecore/sqlstore.go
@@ -1962,6 +1962,8 @@ func (s *SQLStore) doAdd(object EObject, feature EStructuralFeature, index int,
 }
 
 func (s *SQLStore) AddAll(object EObject, feature EStructuralFeature, index int, c Collection) {
+	// collection may be modified before operation is executed
+	c = NewImmutableEList(slices.Clone(c.ToArray()))
 	s.scheduleOperation(
 		context.Background(),
 		newOperation("AddAll", operationWrite, object, feature, false, index, c, func() (any, error) {
-- 
2.43.0


From 6189792688be6fcc38c2f00548e70b2845202ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:50 +0000
Subject: [PATCH 65/69] fix: SQL store lists are read before they are iterated

---
 ecore/sqlstore.go | 102 +++++++++++++++++++++++++---------------------
 1 file changed, 55 insertions(+), 47 deletions(-)

diff --git a/ecore/sqlstore.go b/ecore/sqlstore.go
index f84ae6d..68687e2 100644
--- a/ecore/sqlstore.go
+++ b/ecore/sqlstore.go
@@ -1872,25 +1872,26 @@ func (s *SQLStore) GetRoots() []EObject {
 
 func (s *SQLStore) doGetRoots() ([]EObject, error) {
 	table := s.schema.contentsTable
-	contents := []EObject{}
+	objectIDs := []int64{}
 	if err := s.executeQuery(
 		table.selectQuery(nil, "", ""),
 		&sqlitex.ExecOptions{
 			ResultFunc: func(stmt *sqlite.Stmt) error {
-				// retrieve object id
-				objectID := stmt.ColumnInt64(0)
-				// decode object
-				object, err := s.decodeObject(objectID)
-				if err != nil {
-					return err
-				}
-				// add object to contents
-				contents = append(contents, object)
+				objectIDs = append(objectIDs, stmt.ColumnInt64(0))
 				return nil
 			},
 		}); err != nil {
 		return nil, err
 	}
+	// decode objects when query is finished
+	contents := make([]EObject, 0, len(objectIDs))
+	for _, objectID := range objectIDs {
+		object, err := s.decodeObject(objectID)
+		if err != nil {
+			return nil, err
+		}
+		contents = append(contents, object)
+	}
 	return contents, nil
 }
 
@@ -2332,47 +2333,54 @@ func (s *SQLStore) doSetContainer(object EObject, container EObject, feature ESt
 
 func (s *SQLStore) All(object EObject, feature EStructuralFeature) iter.Seq[any] {
 	return func(yield func(any) bool) {
-		awaitOperation[any](
-			context.Background(),
-			s.scheduleOperation(
-				context.Background(),
-				newOperation("All", operationRead, object, feature, false, -1, nil, func() (any, error) {
-					interrupted := errors.New("interrupted")
-					sqlObjectID, isSQLObjectID, err := s.getSQLID(object)
-					if err != nil {
-						return nil, err
-					} else if !isSQLObjectID {
-						return nil, nil
-					}
-					featureSchema, err := s.getFeatureSchema(object, feature)
-					if err != nil {
-						return nil, err
-					}
-					featureTable := featureSchema.table
-					if err := s.executeQuery(
-						s.getManyQueries(featureTable).getSelectAllQuery(),
-						&sqlitex.ExecOptions{
-							Args: []any{sqlObjectID},
-							ResultFunc: func(stmt *sqlite.Stmt) error {
-								value := decodeAny(stmt, 0)
-								decoded, err := s.decodeFeatureValue(featureSchema, value)
-								if err != nil {
-									return err
-								}
-								if !yield(decoded) {
-									return interrupted
-								}
-								return nil
-							}}); err != nil && err != interrupted {
-						return nil, err
-					}
-					return nil, nil
-				})))
+		for _, value := range s.ToArray(object, feature) {
+			if !yield(value) {
+				return
+			}
+		}
 	}
 }
 
 func (s *SQLStore) ToArray(object EObject, feature EStructuralFeature) []any {
-	return slices.Collect(s.All(object, feature))
+	return awaitOperation[[]any](
+		context.Background(),
+		s.scheduleOperation(
+			context.Background(),
+			newOperation("ToArray", operationRead, object, feature, false, -1, nil, func() (any, error) {
+				return s.doToArray(object, feature)
+			})))
+}
+
+func (s *SQLStore) doToArray(object EObject, feature EStructuralFeature) ([]any, error) {
+	sqlObjectID, isSQLObjectID, err := s.getOperationSQLID(object)
+	if err != nil {
+		return nil, err
+	} else if !isSQLObjectID {
+		return nil, nil
+	}
+	featureSchema, err := s.getFeatureSchema(object, feature)
+	if err != nil {
+		return nil, err
+	}
+	// retrieve values
+	values := []any{}
+	if err := s.executeQuery(
+		s.getManyQueries(featureSchema.table).getSelectAllQuery(),
+		&sqlitex.ExecOptions{
+			Args: []any{sqlObjectID},
+			ResultFunc: func(stmt *sqlite.Stmt) error {
+				values = append(values, decodeAny(stmt, 0))
+				return nil
+			}}); err != nil {
+		return nil, err
+	}
+	// decode values when query is finished
+	for index, value := range values {
+		if values[index], err = s.decodeFeatureValue(featureSchema, value); err != nil {
+			return nil, err
+		}
+	}
+	return values, nil
 }
 
 func (s *SQLStore) Serialize(ctx context.Context) *promise.Promise[[]byte] {
-- 
2.43.0


From d5e81c5fc90d11595a4b839d01f30eabdf4b1507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:50 +0000
Subject: [PATCH 66/69] fix: SQL store operations do not fail because of
 previous ones

---
 ecore/sqlbase.go  | 39 +++++++++++++++++++++++----------------
 ecore/sqlstore.go | 12 ++++--------
 2 files changed, 27 insertions(+), 24 deletions(-)

diff --git a/ecore/sqlbase.go b/ecore/sqlbase.go
index d906c71..4e4a76d 100644
--- a/ecore/sqlbase.go
+++ b/ecore/sqlbase.go
@@ -164,9 +164,13 @@ func (s *sqlBase) executeSqlite(fn executeQueryFn, cmd string, opts *sqlitex.Exe
 				}
 			}
 		case queryWrite:
-			if len(sqliteQueries) > 0 {
-				query := sqliteQueries[len(sqliteQueries)-1]
+			// last write and all reads after
+			for i := len(sqliteQueries) - 1; i >= 0; i-- {
+				query := sqliteQueries[i]
 				previous[query] = struct{}{}
+				if query.type_ == queryWrite {
+					break
+				}
 			}
 		}
 		// register query for thid table
@@ -184,17 +188,17 @@ func (s *sqlBase) executeSqlite(fn executeQueryFn, cmd string, opts *sqlitex.Exe
 					zap.Int64s("previous", mapSet(previous, func(query *query) int64 { return query.id })),
 				)
 			}
-			promises := mapSet(previous, func(query *query) *promise.Promise[any] { return query.promise })
-			if _, err := promise.AllWithPool(context.Background(), s.promisePool, promises...).Await(context.Background()); err != nil {
-				if e := s.sqliteLogger.Check(zap.DebugLevel, "error in previous query"); e != nil {
-					e.Write(
-						zap.Int64("id", q.id),
-						zap.Int64("goid", goid),
-						zap.Error(err),
-					)
+			// wait for previous queries to be finished : their errors are not errors of this query
+			for query := range previous {
+				if _, err := query.promise.Await(context.Background()); err != nil {
+					if e := s.sqliteLogger.Check(zap.DebugLevel, "error in previous query"); e != nil {
+						e.Write(
+							zap.Int64("id", q.id),
+							zap.Int64("goid", goid),
+							zap.Error(err),
+						)
+					}
 				}
-				reject(err)
-				return
 			}
 		}
 
@@ -204,10 +208,9 @@ func (s *sqlBase) executeSqlite(fn executeQueryFn, cmd string, opts *sqlitex.Exe
 			loggerArgs = append(loggerArgs, zap.Any("args", opts.Args))
 		}
 		s.logger.Log(zap.DebugLevel, "executing", loggerArgs...)
-		if err := s.executeInPool(fn, cmd, opts); err != nil {
+		err := s.executeInPool(fn, cmd, opts)
+		if err != nil {
 			s.logger.Error("executed", append(loggerArgs, zap.Error(err))...)
-			reject(err)
-			return
 		} else {
 			s.logger.Log(zap.DebugLevel, "executed", loggerArgs...)
 		}
@@ -249,7 +252,11 @@ func (s *sqlBase) executeSqlite(fn executeQueryFn, cmd string, opts *sqlitex.Exe
 		if len(s.sqliteQueries) == 0 {
 			s.sqliteLogger.Debug("no pending")
 		}
-		resolve(nil)
+		if err != nil {
+			reject(err)
+		} else {
+			resolve(nil)
+		}
 	}, s.promisePool)
 
 	s.sqliteMutex.Unlock()
diff --git a/ecore/sqlstore.go b/ecore/sqlstore.go
index 68687e2..813983e 100644
--- a/ecore/sqlstore.go
+++ b/ecore/sqlstore.go
@@ -1278,15 +1278,11 @@ func (s *SQLStore) scheduleOperation(ctx context.Context, op *operation) *operat
 					zap.Int64s("previous", mapSet(op.previous, func(o *operation) int64 { return o.id })),
 				)
 			}
-			promises := mapSet(op.previous, func(o *operation) *promise.Promise[any] { return o.promise })
-			if _, err := promise.AllWithPool(ctx, s.promisePool, promises...).Await(ctx); err != nil && err != ctx.Err() {
-				// unwrap error
-				if unwrapped := errors.Unwrap(err); unwrapped != nil {
-					err = unwrapped
+			// wait for previous operations to be finished : their errors are not errors of this operation
+			for previous := range op.previous {
+				if _, err := previous.promise.Await(ctx); err != nil && ctx.Err() != nil {
+					break
 				}
-				// handle error
-				handleError(fmt.Errorf("error in previous operation: %w", err))
-				return
 			}
 		}
 
-- 
2.43.0


From c50251eeaa1a48645ca91007c38f16706c7b04ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:12 +0000
Subject: [PATCH 67/69] fix: SQL store tells the pending value of a feature,
 not the one of another feature

---
 ecore/sqlstore.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecore/sqlstore.go b/ecore/sqlstore.go
index 813983e..a8cd012 100644
--- a/ecore/sqlstore.go
+++ b/ecore/sqlstore.go
@@ -1341,7 +1341,8 @@ func (s *SQLStore) getLastOperation(type_ operationType, object EObject, feature
 	if objectOperations := s.objectOperations[object]; objectOperations != nil {
 		if operations := objectOperations[feature]; operations != nil {
 			for i := len(operations) - 1; i >= 0; i-- {
-				if operation := operations[i]; operation.type_ == type_ && operation.index == index {
+				// operations on another feature whose value is the object are also registered there
+				if operation := operations[i]; operation.type_ == type_ && operation.object == object && operation.feature == feature && operation.index == index {
 					return operation
 				}
 			}
-- 
2.43.0


From f9d875aeb4f4ffa3dc46c921126f5ba76721b5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:24 +0000
Subject: [PATCH 68/69] fix: unlocking a store object unlocks the lists it has
 locked

---
 ecore/estoreeobject_impl.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ecore/estoreeobject_impl.go b/ecore/estoreeobject_impl.go
index 0ea7e7b..5a3ae32 100644
--- a/ecore/estoreeobject_impl.go
+++ b/ecore/estoreeobject_impl.go
@@ -20,6 +20,7 @@ type EStoreEObjectImpl struct {
 	store EStore
 	cache bool
 	mutex rmx.RecursiveMutex
+	locks [][]*EStoreList // lists locked by each Lock
 }
 
 func NewEStoreEObjectImpl(cache bool) *EStoreEObjectImpl {
@@ -42,19 +43,23 @@ func (o *EStoreEObjectImpl) AsEStoreEObject() EStoreEObject {
 
 func (o *EStoreEObjectImpl) Lock() {
 	o.mutex.Lock()
+	var lists []*EStoreList
 	for _, v := range o.properties {
 		if storeList, isStoreList := v.(*EStoreList); isStoreList {
 			storeList.Lock()
+			lists = append(lists, storeList)
 		}
 	}
+	o.locks = append(o.locks, lists)
 }
 
 func (o *EStoreEObjectImpl) Unlock() {
-	for _, v := range o.properties {
-		if storeList, isStoreList := v.(*EStoreList); isStoreList {
-			storeList.Unlock()
-		}
+	// properties may have changed since object was locked
+	last := len(o.locks) - 1
+	for _, storeList := range o.locks[last] {
+		storeList.Unlock()
 	}
+	o.locks = o.locks[:last]
 	o.mutex.Unlock()
 }
 
-- 
2.43.0


From b4988a61484d813e5815ab468d2d75eb8abca636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:53 +0000
Subject: [PATCH 69/69] fix: a cached default value does not make a feature set

---
 ecore/estoreeobject_impl.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ecore/estoreeobject_impl.go b/ecore/estoreeobject_impl.go
index 5a3ae32..0ee9c44 100644
--- a/ecore/estoreeobject_impl.go
+++ b/ecore/estoreeobject_impl.go
@@ -10,6 +10,8 @@
 package ecore
 
 import (
+	"reflect"
+
 	"github.com/SokaDance/rmx"
 )
 
@@ -240,10 +242,18 @@ func (o *EStoreEObjectImpl) EDynamicIsSet(dynamicFeatureID int) bool {
 	o.mutex.Lock()
 	defer o.mutex.Unlock()
 
+	store := o.AsEStoreEObject().GetEStore()
 	if o.properties != nil && o.properties[dynamicFeatureID] != nil {
-		return isSetProperty(o.properties[dynamicFeatureID])
+		value := o.properties[dynamicFeatureID]
+		if store != nil {
+			// a cached value equal to the default one may be the value of an unset feature : only the store knows it
+			if eFeature := o.eDynamicFeature(dynamicFeatureID); !eFeature.IsMany() && !eFeature.IsTransient() && reflect.DeepEqual(value, eFeature.GetDefaultValue()) {
+				return store.IsSet(o.AsEObject(), eFeature)
+			}
+		}
+		return isSetProperty(value)
 	}
-	if store := o.AsEStoreEObject().GetEStore(); store != nil {
+	if store != nil {
 		eFeature := o.eDynamicFeature(dynamicFeatureID)
 		return store.IsSet(o.AsEObject(), eFeature)
 	}
-- 
2.43.0

