From db499560389d2bc72ec27ea233cd59f8c23a9965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:09 +0000
Subject: [PATCH 01/35] fix: adding an existing layer parent again must not
 duplicate the relation

Only the first parent of the child was compared.
---
 src/core/Environment.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 88e88c8..067f728 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -428,9 +428,12 @@ void Environment::addChild(Layer* parent, Layer* child)
     assert( parent != child );
 
     // don't do anything if relationsship already present
-    layerTreeType::iterator it = layerTree.find( child );
-    if( it != layerTree.end() && it->second == parent )
-	return;
+    std::pair<layerTreeType::iterator, layerTreeType::iterator> range = layerTree.equal_range( child );
+    for( layerTreeType::iterator it = range.first; it != range.second; it++ )
+    {
+	if( it->second == parent )
+	    return;
+    }
     
     if( !child->isAttached() )
 	attachItem( child );
-- 
2.43.0


From 4a442df34df4663d09a47835e0956fd3307106cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:09 +0000
Subject: [PATCH 02/35] fix: connecting a layer to an operator twice must not
 duplicate the connection

Only the first input/output of the operator was compared.
---
 src/core/Environment.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 067f728..8f113e0 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -612,9 +612,12 @@ std::list<CartesianMap*> Environment::getMaps(FrameNode* node)
 bool Environment::addInput(Operator* op, Layer* input)
 {
     // don't do anything if relationsship already present
-    operatorGraphType::iterator it = operatorGraphInput.find( op );
-    if( it != operatorGraphInput.end() && it->second == input )
-	return false;
+    std::pair<operatorGraphType::iterator, operatorGraphType::iterator> range = operatorGraphInput.equal_range( op );
+    for( operatorGraphType::iterator it = range.first; it != range.second; it++ )
+    {
+	if( it->second == input )
+	    return false;
+    }
     
     if( !op->isAttached() )
 	attachItem( op );
@@ -630,9 +633,12 @@ bool Environment::addInput(Operator* op, Layer* input)
 bool Environment::addOutput(Operator* op, Layer* output)
 {
     // don't do anything if relationsship already present
-    operatorGraphType::iterator it = operatorGraphOutput.find( op );
-    if( it != operatorGraphOutput.end() && it->second == output )
-	return false;
+    std::pair<operatorGraphType::iterator, operatorGraphType::iterator> range = operatorGraphOutput.equal_range( op );
+    for( operatorGraphType::iterator it = range.first; it != range.second; it++ )
+    {
+	if( it->second == output )
+	    return false;
+    }
 
     if( !op->isAttached() )
 	attachItem( op );
-- 
2.43.0


From 28675fbd1841d86fc068c06163eaefebea753b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:09 +0000
Subject: [PATCH 03/35] fix: removing a layer relation that does not exist must
 not be announced

---
 src/core/Environment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 8f113e0..5aa9338 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -462,14 +462,14 @@ void Environment::removeChild(FrameNode* parent, FrameNode* child)
 
 void Environment::removeChild(Layer* parent, Layer* child) 
 {
-    handle( Event( event::LAYER_TREE, event::REMOVE, parent, child ) );
-
     typedef layerTreeType::iterator iterator;
     std::pair<iterator,iterator> range = layerTree.equal_range( child );
     for( iterator it = range.first; it != range.second; it++ )
     {
 	if( it->second == parent )
 	{
+	    handle( Event( event::LAYER_TREE, event::REMOVE, parent, child ) );
+
 	    layerTree.erase( it );
 	    return;
 	}
-- 
2.43.0


From 1c9b89340d2bee277f3282ca5a3c3132e6271865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:09 +0000
Subject: [PATCH 04/35] fix: Layer::detachFromOperator must disconnect the
 layer from its generator

The layer is an output of the operator that generates it, not an input.
---
 src/core/Layer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Layer.cpp b/src/core/Layer.cpp
index 5bf55d6..5bcf6f0 100644
--- a/src/core/Layer.cpp
+++ b/src/core/Layer.cpp
@@ -101,7 +101,7 @@ bool Layer::isDirty() const
 bool Layer::detachFromOperator()
 {
     if( isGenerated() ) 
-	return env->removeInput( getGenerator(), this );
+	return env->removeOutput( getGenerator(), this );
 
     return true;
 }
-- 
2.43.0


From 805b1b4ca9e3c19dc6e9ccc269cf15a57a28629c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:09 +0000
Subject: [PATCH 05/35] fix: Layer::updateFromOperator must leave the layer
 clean, as documented

---
 src/core/Layer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Layer.cpp b/src/core/Layer.cpp
index 5bcf6f0..4f96c7b 100644
--- a/src/core/Layer.cpp
+++ b/src/core/Layer.cpp
@@ -120,7 +120,10 @@ Operator* Layer::getGenerator() const
 void Layer::updateFromOperator() 
 {
     if( isGenerated() && isDirty() )
+    {
         getGenerator()->updateAll();
+        resetDirty();
+    }
 }
 
 const std::string Layer::getMapFileName() const 
-- 
2.43.0


From 0cfad411126e98c0cb0aef7fb347254c8a447d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:09 +0000
Subject: [PATCH 06/35] fix: attaching an item of another environment must not
 delete it

The only remaining reference was the temporary returned by detach().
---
 src/core/Environment.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 5aa9338..47e9163 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -264,6 +264,7 @@ void Environment::attachItem(EnvironmentItem* item)
 {
     assert( item );
 
+    EnvironmentItem::Ptr itemPtr;
     if(!item->isAttached())
     {
         if(item->unique_id == ITEM_NOT_ATTACHED)
@@ -289,8 +290,9 @@ void Environment::attachItem(EnvironmentItem* item)
     else if( item->getEnvironment() != this )
     {
 	// if it comes from a different environment, it
-	// needs to be detached first
-	item->detach();
+	// needs to be detached first. Keep a reference, since the
+	// previous environment gives up its ownership.
+	itemPtr = item->detach();
     }
 
     // make sure item not already present
-- 
2.43.0


From b04d0c50df5064557247e7f27a0fe377539b2070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:38 +0000
Subject: [PATCH 07/35] fix: event handlers must be told about all content on
 (de)registration

The layer hierarchy and frames not connected to the root node were never
published, and maps attached to the root node were never retracted.
---
 src/core/Environment.cpp | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 47e9163..a3edfc8 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -186,8 +186,13 @@ void Environment::addEventHandler(EventHandler *handler)
     //set root node
     handler->receive( Event( event::ROOT, event::ADD, getRootNode() ) );
     
-    //iterate over frame tree
-    publishChilds(handler, getRootNode());    
+    //iterate over the frame trees, which don't have to be connected to the root
+    for(itemListType::iterator it = items.begin(); it != items.end(); it++) 
+    {
+	FrameNode* frame = dynamic_cast<FrameNode*>( it->second.get() );
+	if( frame && !getParent( frame ) )
+	    publishChilds(handler, frame);
+    }
 
     //publish connections between maps and Framenodes
     for(cartesianMapGraphType::iterator it = cartesianMapGraph.begin(); it != cartesianMapGraph.end(); it++) 
@@ -195,6 +200,12 @@ void Environment::addEventHandler(EventHandler *handler)
 	handler->receive( Event( event::FRAMENODE, event::ADD, it->first, it->second ) );
     }
     
+    //publish the layer hierarchy
+    for(layerTreeType::iterator it = layerTree.begin(); it != layerTree.end(); it++) 
+    {
+	handler->receive( Event( event::LAYER_TREE, event::ADD, it->second, it->first ) );
+    }
+    
     eventHandlers.addEventHandler(handler);
 }
 
@@ -224,8 +235,27 @@ void Environment::detachChilds(FrameNode *parent, EventHandler *evl)
 
 void Environment::removeEventHandler(EventHandler *handler) 
 {
-    //reverse iterate over the frame node tree and detach all children    
-    detachChilds(getRootNode(), handler);
+    //detach the layers from their parents
+    for(layerTreeType::iterator it = layerTree.begin(); it != layerTree.end(); it++) 
+    {
+	handler->receive( Event( event::LAYER_TREE, event::REMOVE, it->second, it->first ) );
+    }
+    
+    //reverse iterate over the frame node trees and detach all children and maps
+    for(itemListType::iterator it = items.begin(); it != items.end(); it++) 
+    {
+	FrameNode* frame = dynamic_cast<FrameNode*>( it->second.get() );
+	if( frame && !getParent( frame ) )
+	{
+	    detachChilds(frame, handler);
+	    
+	    std::list<CartesianMap*> maplist = getMaps(frame);
+	    for(std::list<CartesianMap*>::iterator mapit = maplist.begin(); mapit != maplist.end(); mapit++) 
+	    {
+		handler->receive( Event( event::FRAMENODE, event::REMOVE, *mapit, frame ) );
+	    }
+	}
+    }
     
     //remove root node
     handler->receive( Event( event::ROOT, event::REMOVE, getRootNode() ) );
-- 
2.43.0


From 8b7a5a77d71201b44f96093a3d5f546f37cc946a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:22 +0000
Subject: [PATCH 08/35] fix: queued removal and re-addition of an item lost its
 new content

---
 src/core/Event.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/Event.cpp b/src/core/Event.cpp
index e12e565..feefeca 100644
--- a/src/core/Event.cpp
+++ b/src/core/Event.cpp
@@ -63,6 +63,14 @@ event::Result Event::merge( const Event& other )
     if(type == other.type && operation == other.operation && id_a == other.id_a && id_b == other.id_b) 
 	return event::INVALIDATE;
 
+    // an item that is added again after it has been removed may have a
+    // different content, so what is left over is an update
+    if( operation == event::ADD && other.operation == event::REMOVE && type == event::ITEM
+	&& type == other.type && id_a == other.id_a && id_b == other.id_b )
+    {
+	operation = event::UPDATE;
+	return event::INVALIDATE;
+    }
     // adding and removing will cancel each other, if the events are otherwise the same
     if( ((operation == event::REMOVE && other.operation == event::ADD)
         || (operation == event::ADD && other.operation == event::REMOVE))
-- 
2.43.0


From c1f24a6369db5be5ad88dbe52eaa6184a45c02ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:22 +0000
Subject: [PATCH 09/35] fix: applying the update of an unknown item announced a
 modification of no item

---
 src/core/Event.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/Event.cpp b/src/core/Event.cpp
index feefeca..d12c4b9 100644
--- a/src/core/Event.cpp
+++ b/src/core/Event.cpp
@@ -139,6 +139,7 @@ struct ApplyEventHelper : public EventDispatcher
 	    // for the time being copy the whole item
 	    // TODO: implement partial updates
 	    item->set( event.a.get() );
+	    env.itemModified( item );
 	}
 	else if( lenient )
 	{
@@ -150,8 +151,6 @@ struct ApplyEventHelper : public EventDispatcher
 	{
 	    throw std::runtime_error("Event could not be applied. Item does not exist in environment.");
 	}
-	
-	env.itemModified( item );
     }
 
     void itemDetached(EnvironmentItem *item)
-- 
2.43.0


From 0edd1ad8353bd7c0a0d411af43aed0c8322cef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:22 +0000
Subject: [PATCH 10/35] fix: removing an event filter dereferenced a null
 pointer

---
 src/core/EventHandler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/EventHandler.cpp b/src/core/EventHandler.cpp
index b78edbb..ade55d5 100644
--- a/src/core/EventHandler.cpp
+++ b/src/core/EventHandler.cpp
@@ -24,7 +24,8 @@ void EventHandler::receive( const Event& message )
 void EventHandler::setFilter( EventFilter* filter ) 
 { 
     this->filter = filter; 
-    filter->setHandler( this );
+    if( filter )
+	filter->setHandler( this );
 }
 
 void EventDispatcher::itemAttached(EnvironmentItem *item) {}
-- 
2.43.0


From 2dc3b9d902eacf269fd5decf753deedf1f48ba63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:30 +0000
Subject: [PATCH 11/35] fix: GridBase::toGrid returned a cell for points far
 outside the grid

---
 src/maps/GridBase.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/maps/GridBase.cpp b/src/maps/GridBase.cpp
index 72d6a2d..7f07e75 100644
--- a/src/maps/GridBase.cpp
+++ b/src/maps/GridBase.cpp
@@ -391,8 +391,9 @@ bool GridBase::toGrid( Eigen::Vector3d const& point,
 
 bool GridBase::toGrid(double x, double y, size_t& xi, size_t& yi, double& xmod, double& ymod) const
 {
-    size_t am = floor((x-offsetx)/scalex);
-    size_t an = floor((y-offsety)/scaley);
+    // compare before the conversion, which is only defined within the range of size_t
+    double am = floor((x-offsetx)/scalex);
+    double an = floor((y-offsety)/scaley);
 
     if( 0 <= am && am < cellSizeX && 0 <= an && an < cellSizeY )
     {
@@ -415,10 +416,10 @@ bool GridBase::toGrid( double x, double y, size_t& xi, size_t& yi) const
 
 bool envire::GridBase::toGridTimesX(double x, double y, size_t& xi, size_t& yi, int multiplier) const
 {
-    size_t am = floor(((x-offsetx)/scalex)*multiplier);
-    size_t an = floor(((y-offsety)/scaley)*multiplier);
+    double am = floor(((x-offsetx)/scalex)*multiplier);
+    double an = floor(((y-offsety)/scaley)*multiplier);
 
-    if((am < (cellSizeX * multiplier)) && (an < (cellSizeY * multiplier)))
+    if(0 <= am && 0 <= an && (am < (cellSizeX * multiplier)) && (an < (cellSizeY * multiplier)))
     {
         xi = am;
         yi = an;
-- 
2.43.0


From 6bc96318270e7421281a8bb89aa5fcc852708949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:30 +0000
Subject: [PATCH 12/35] fix: the cell extents of a grid went one cell beyond
 its border

---
 src/maps/GridBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/GridBase.cpp b/src/maps/GridBase.cpp
index 7f07e75..663a434 100644
--- a/src/maps/GridBase.cpp
+++ b/src/maps/GridBase.cpp
@@ -492,7 +492,7 @@ GridBase::Extents GridBase::getExtents() const
 
 GridBase::CellExtents GridBase::getCellExtents() const
 {
-    return CellExtents( Eigen::Vector2i::Zero(), Eigen::Vector2i( cellSizeX, cellSizeY ) );
+    return CellExtents( Eigen::Vector2i::Zero(), Eigen::Vector2i( cellSizeX, cellSizeY ) - Eigen::Vector2i::Ones() );
 }
 
 template<typename T>
-- 
2.43.0


From aa9c1216f1ffef486ddb8d5ad8f7467d95c386c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:30 +0000
Subject: [PATCH 13/35] fix: VoxelTraversal left the ray on axis parallel or
 positive directions

---
 src/tools/VoxelTraversal.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/tools/VoxelTraversal.hpp b/src/tools/VoxelTraversal.hpp
index 33194f1..16b192b 100644
--- a/src/tools/VoxelTraversal.hpp
+++ b/src/tools/VoxelTraversal.hpp
@@ -1,6 +1,8 @@
 #ifndef ENVIRE_TOOLS_VOXELTRAVERSAL_HPP__
 #define ENVIRE_TOOLS_VOXELTRAVERSAL_HPP__
 
+#include <limits>
+
 namespace envire
 {
 
@@ -49,13 +51,16 @@ public:
 	stepx = dir.x() > 0 ? 1 : -1;
 	stepy = dir.y() > 0 ? 1 : -1;
 
-	// this is the distance along the ray until a new cell is reached
-	deltax = (dir / dir.x() * grid.getScaleX()).norm();
-	deltay = (dir / dir.y() * grid.getScaleY()).norm();
+	// this is the distance along the ray until a new cell is reached,
+	// which never happens if the ray runs parallel to the cell borders
+	const double inf = std::numeric_limits<double>::infinity();
+	deltax = dir.x() != 0 ? (dir / dir.x() * grid.getScaleX()).norm() : inf;
+	deltay = dir.y() != 0 ? (dir / dir.y() * grid.getScaleY()).norm() : inf;
 
-	// starting distance until a new cell is reached.
-	maxx = deltax * xmod;
-	maxy = deltay * ymod; 
+	// starting distance until a new cell is reached, given by the part of
+	// the cell which is left in the direction of the ray
+	maxx = dir.x() != 0 ? deltax * (stepx > 0 ? grid.getScaleX() - xmod : xmod) / grid.getScaleX() : inf;
+	maxy = dir.y() != 0 ? deltay * (stepy > 0 ? grid.getScaleY() - ymod : ymod) / grid.getScaleY() : inf; 
     }
 
     Eigen::Vector3d getPosition()
-- 
2.43.0


From 4f368d61848f95adfe0f0412833f49abc9ea83fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:05 +0000
Subject: [PATCH 14/35] fix: RadialLookUpTable did not cover the radius in
 positive direction

---
 src/tools/RadialLookUpTable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/RadialLookUpTable.cpp b/src/tools/RadialLookUpTable.cpp
index 8a2e28b..e8347f5 100644
--- a/src/tools/RadialLookUpTable.cpp
+++ b/src/tools/RadialLookUpTable.cpp
@@ -15,8 +15,8 @@ void RadialLookUpTable::recompute(double scale, double maxRadius)
     
     this->maxRadius = maxRadius;
     this->scale = scale;
-    numElementsPerLine = maxRadius / scale * 2;
     numElementsPerLineHalf = maxRadius / scale;
+    numElementsPerLine = numElementsPerLineHalf * 2 + 1;
 
     computeAngles();
     computeDistances();
-- 
2.43.0


From 4084c9d7c3d9fde57f9340e985713eedb5a5d76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:05 +0000
Subject: [PATCH 15/35] fix: BoxLookUpTable read beyond its border

---
 src/tools/BoxLookUpTable.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools/BoxLookUpTable.cpp b/src/tools/BoxLookUpTable.cpp
index 9898a92..a9d7009 100644
--- a/src/tools/BoxLookUpTable.cpp
+++ b/src/tools/BoxLookUpTable.cpp
@@ -119,10 +119,10 @@ const double& BoxLookUpTable::getDistanceToBox(double xp, double yp) const
     if(!distanceTable)
         throw std::runtime_error("BoxLookUpTable::Lookup table is not computed");    
 
-    int x = (xp + centerX) / scale;
-    int y = (yp + centerY) / scale;
+    int x = floor((xp + centerX) / scale);
+    int y = floor((yp + centerY) / scale);
     
-    if(x < 0 || x > cellSizeX || y < 0 || y > cellSizeY)
+    if(x < 0 || x >= cellSizeX || y < 0 || y >= cellSizeY)
     {
         std::cout << "xp " << xp << " yp " << yp << " x " << x << " y " << y << std::endl; 
         throw std::runtime_error("BoxLookUpTable:: Distance lookup out of bound");
-- 
2.43.0


From d51c4fc1b79d8fef58650a16dd4be745812ef669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:59 +0000
Subject: [PATCH 16/35] fix: the maximum of a band of negative floating point
 values was positive

---
 src/maps/Grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/Grid.hpp b/src/maps/Grid.hpp
index a8c05ef..c06fff4 100644
--- a/src/maps/Grid.hpp
+++ b/src/maps/Grid.hpp
@@ -179,7 +179,7 @@ namespace envire
         void getMinMaxValues( const std::string& key, T& min, T& max )
         {
             min = std::numeric_limits<T>::max();
-            max = std::numeric_limits<T>::min();
+            max = std::numeric_limits<T>::lowest();
 
             ArrayType& a = getGridData( key );
             for( T* i = a.data(); i < (a.data() + a.num_elements()); i++ )
-- 
2.43.0


From ea154c3ea8c662aec298bd1bfd76df9b8d111749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:59 +0000
Subject: [PATCH 17/35] fix: ElevationGrid::get took a cell position for
 coordinates

---
 src/maps/ElevationGrid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maps/ElevationGrid.hpp b/src/maps/ElevationGrid.hpp
index 5d04039..ba31c3a 100644
--- a/src/maps/ElevationGrid.hpp
+++ b/src/maps/ElevationGrid.hpp
@@ -36,10 +36,10 @@ namespace envire
         { return Grid<double>::get(ELEVATION, x, y); }
 
         double& get( const Position& pos )
-        { return Grid<double>::get(ELEVATION, pos.x, pos.y); }
+        { return getFromRaster(ELEVATION, pos.x, pos.y); }
 
         double get( const Position& pos ) const
-        { return Grid<double>::get(ELEVATION, pos.x, pos.y); }
+        { return getFromRaster(ELEVATION, pos.x, pos.y); }
 
         Eigen::Vector3d getNormal( const Position& pos ) const;
 
-- 
2.43.0


From a981982781bc4916227209b6c07d69dc6e6a7eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:59 +0000
Subject: [PATCH 18/35] fix: the normal of a border cell was computed from
 memory outside of the grid

---
 src/maps/ElevationGrid.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/maps/ElevationGrid.cpp b/src/maps/ElevationGrid.cpp
index 10b00d9..42d0afb 100644
--- a/src/maps/ElevationGrid.cpp
+++ b/src/maps/ElevationGrid.cpp
@@ -16,8 +16,11 @@ Eigen::Vector3d envire::ElevationGrid::getNormal(const envire::GridBase::Positio
     size_t m = pos.x, n = pos.y;
 
     const ArrayType &grid( getGridData( ELEVATION ) );
-    double slope_x = (grid[n][m-1] - grid[n][m+1]) / (getScaleX()*2.0);
-    double slope_y = (grid[n-1][m] - grid[n+1][m]) / (getScaleY()*2.0);
+    // at the border there is a neighbour on one side only
+    size_t m0 = m > 0 ? m-1 : m, m1 = m+1 < getCellSizeX() ? m+1 : m;
+    size_t n0 = n > 0 ? n-1 : n, n1 = n+1 < getCellSizeY() ? n+1 : n;
+    double slope_x = m1 > m0 ? (grid[n][m0] - grid[n][m1]) / (getScaleX()*(m1 - m0)) : 0;
+    double slope_y = n1 > n0 ? (grid[n0][m] - grid[n1][m]) / (getScaleY()*(n1 - n0)) : 0;
 
     return Eigen::Vector3d( slope_x, slope_y, 1.0 ).normalized();
 }
-- 
2.43.0


From 8ba6e5db3bf065b5d3c0d3d9c55d3ab9650ccf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:49 +0000
Subject: [PATCH 19/35] fix: TraversabilityClass::isSet was true exactly for
 placeholders

---
 src/maps/TraversabilityGrid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/TraversabilityGrid.hpp b/src/maps/TraversabilityGrid.hpp
index d6a483a..1a024e4 100644
--- a/src/maps/TraversabilityGrid.hpp
+++ b/src/maps/TraversabilityGrid.hpp
@@ -33,7 +33,7 @@ public:
      * or if it is an empty placeholder
      * */
     bool isSet() const {
-        return drivability < 0;
+        return drivability >= 0;
     }
 
     /**
-- 
2.43.0


From 85d78a757bd80c30b9e3a718e1fb80af7be5fdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:49 +0000
Subject: [PATCH 20/35] fix: statistics wrote out of bounds and looped forever
 for class 255

---
 src/maps/TraversabilityGrid.cpp | 4 ++--
 src/maps/TraversabilityGrid.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/maps/TraversabilityGrid.cpp b/src/maps/TraversabilityGrid.cpp
index a632acf..cfe6e42 100644
--- a/src/maps/TraversabilityGrid.cpp
+++ b/src/maps/TraversabilityGrid.cpp
@@ -102,7 +102,7 @@ const TraversabilityClass& TraversabilityGrid::getWorstTraversabilityClassInRect
     TraversabilityStatistic innerStatistic;
     computeStatistic(pose, sizeX, sizeY, innerStatistic);
 
-    for(uint8_t i = 0; i <= innerStatistic.getHighestTraversabilityClass(); i++)
+    for(int i = 0; i <= innerStatistic.getHighestTraversabilityClass(); i++)
     {
         size_t count;
         double dist;
@@ -124,7 +124,7 @@ const TraversabilityClass& TraversabilityGrid::getWorstTraversabilityClassInRect
     if(curClass < 0)
     {
         std::cout << "Pose " << pose.position.transpose() << " sizeY " << sizeY << " sizeX " << sizeX << " Total Count " << innerStatistic.getTotalCount() << std::endl;
-        for(uint8_t i = 0; i <= innerStatistic.getHighestTraversabilityClass(); i++)
+        for(int i = 0; i <= innerStatistic.getHighestTraversabilityClass(); i++)
         {
             size_t count;
             double dist;
diff --git a/src/maps/TraversabilityGrid.hpp b/src/maps/TraversabilityGrid.hpp
index 1a024e4..7a22546 100644
--- a/src/maps/TraversabilityGrid.hpp
+++ b/src/maps/TraversabilityGrid.hpp
@@ -68,8 +68,8 @@ class TraversabilityStatistic
 public:
     TraversabilityStatistic() : countTotal(0), highestTraversabilityClass(0)
     {
-        minDistance.resize(std::numeric_limits<uint8_t>::max(), std::numeric_limits<double>::max());
-        counts.resize(std::numeric_limits<uint8_t>::max());
+        minDistance.resize(std::numeric_limits<uint8_t>::max() + 1, std::numeric_limits<double>::max());
+        counts.resize(std::numeric_limits<uint8_t>::max() + 1);
     }
 
     /**
-- 
2.43.0


From ef470bd54bccdbe161f96a18eade6aec798db675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:49 +0000
Subject: [PATCH 21/35] fix: cloning a TraversabilityGrid shared the cells of
 the original

---
 src/maps/TraversabilityGrid.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/maps/TraversabilityGrid.hpp b/src/maps/TraversabilityGrid.hpp
index 7a22546..531e7b1 100644
--- a/src/maps/TraversabilityGrid.hpp
+++ b/src/maps/TraversabilityGrid.hpp
@@ -152,6 +152,11 @@ public:
     {
     };
 
+    TraversabilityGrid(const TraversabilityGrid &other) : Grid<uint8_t>(other), traversabilityClasses(other.traversabilityClasses),
+                        probabilityArray(NULL), traversabilityArray(NULL)
+    {
+    };
+
     ~TraversabilityGrid(){};
 
     TraversabilityGrid &operator=(const TraversabilityGrid &other);
-- 
2.43.0


From 7c9930027cf2d815c4c2657d035c211ce75144b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:49 +0000
Subject: [PATCH 22/35] fix: the distance table of a rectangle did not cover
 its border cells

---
 src/maps/TraversabilityGrid.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maps/TraversabilityGrid.cpp b/src/maps/TraversabilityGrid.cpp
index cfe6e42..7fd14ee 100644
--- a/src/maps/TraversabilityGrid.cpp
+++ b/src/maps/TraversabilityGrid.cpp
@@ -35,7 +35,8 @@ public:
     {
         if(!lut)
             lut = new RadialLookUpTable();
-        lut->recompute(grid.getScaleX(), std::max(sizeX, sizeY));
+        //the rectangle also touches cells that are only partly covered by it
+        lut->recompute(grid.getScaleX(), std::max(sizeX, sizeY) + 2 * grid.getScaleX());
 
         if(!boxLut)
             boxLut = new BoxLookUpTable();
-- 
2.43.0


From acbad5738151aef3bf3b686558258ef26cc3d77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:35 +0000
Subject: [PATCH 23/35] fix: correlation of rotation and translation had the
 wrong sign in inverse transforms

---
 src/core/Transform.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Transform.cpp b/src/core/Transform.cpp
index 5d4f73b..6a51e44 100644
--- a/src/core/Transform.cpp
+++ b/src/core/Transform.cpp
@@ -278,8 +278,8 @@ TransformWithUncertainty TransformWithUncertainty::inverse() const
     Eigen::Quaterniond q( getTransform().linear() );
     Eigen::Vector3d t( getTransform().translation() );
     Eigen::Matrix<double,6,6> J;
-    J << Eigen::Matrix3d::Identity(), Eigen::Matrix3d::Zero(),
-	drx_by_dr( q.inverse(), t ), q.toRotationMatrix().transpose();
+    J << -Eigen::Matrix3d::Identity(), Eigen::Matrix3d::Zero(),
+	drx_by_dr( q.inverse(), t ), -q.toRotationMatrix().transpose();
 
     return TransformWithUncertainty(
 	    Eigen::Affine3d( getTransform().inverse( Eigen::Isometry ) ),
-- 
2.43.0


From 7e86315eac6efe4bb01978915c6cff1b23e94394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:35 +0000
Subject: [PATCH 24/35] fix: uncertainty of default constructed transforms and
 points was uninitialized

---
 src/core/Transform.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/Transform.cpp b/src/core/Transform.cpp
index 6a51e44..35d32b6 100644
--- a/src/core/Transform.cpp
+++ b/src/core/Transform.cpp
@@ -5,13 +5,15 @@
 
 using namespace envire;
 
-PointWithUncertainty::PointWithUncertainty() {}
+PointWithUncertainty::PointWithUncertainty() 
+    : cov( Covariance::Zero() ), uncertain(false) {}
 PointWithUncertainty::PointWithUncertainty( const Point& point ) 
-    : point( point ), uncertain(false) {}
+    : point( point ), cov( Covariance::Zero() ), uncertain(false) {}
 PointWithUncertainty::PointWithUncertainty( const Point& point, const Covariance& cov ) 
     : point( point ), cov( cov ), uncertain(true) {}
 
-TransformWithUncertainty::TransformWithUncertainty() {}
+TransformWithUncertainty::TransformWithUncertainty() 
+    : cov( Covariance::Zero() ), uncertain(false) {}
 TransformWithUncertainty::TransformWithUncertainty( const Transform& trans )
     : trans( trans ), cov( Covariance::Zero() ), uncertain(false) {}
 TransformWithUncertainty::TransformWithUncertainty( const base::samples::RigidBodyState& rbs )
-- 
2.43.0


From a745894eb56c879fc247ea625240b3c2bd9497a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:35 +0000
Subject: [PATCH 25/35] fix: transforming a certain point with a certain
 transform claimed an uncertainty

---
 src/core/Transform.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/Transform.cpp b/src/core/Transform.cpp
index 35d32b6..18a54bc 100644
--- a/src/core/Transform.cpp
+++ b/src/core/Transform.cpp
@@ -257,6 +257,10 @@ TransformWithUncertainty TransformWithUncertainty::operator*( const TransformWit
 
 PointWithUncertainty TransformWithUncertainty::operator*( const PointWithUncertainty& point ) const
 {
+    // short path if there is no uncertainty 
+    if( !hasUncertainty() && !point.hasUncertainty() )
+	return PointWithUncertainty( getTransform() * point.getPoint() );
+
     Eigen::Matrix3d R( getTransform().linear() );
     Eigen::Quaterniond q( R );
     Eigen::Matrix<double,3,6> J;
-- 
2.43.0


From 093fd5b56a2eb9576d092083df30abdb3e4eb920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:38 +0000
Subject: [PATCH 26/35] fix: sign error in the derivative of a rotated point

---
 src/core/Transform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Transform.cpp b/src/core/Transform.cpp
index 18a54bc..efba80e 100644
--- a/src/core/Transform.cpp
+++ b/src/core/Transform.cpp
@@ -128,7 +128,7 @@ Eigen::Matrix<double,3,3> drx_by_dr( const Eigen::Quaterniond& q, const Eigen::V
     const double theta = r.norm();
     const double alpha = 1.0 - theta*theta/6.0;
     const double beta = 0.5 - theta*theta/24.0;
-    const double gamma = 1.0 / 3.0 - theta*theta/30.0;
+    const double gamma = -1.0 / 3.0 + theta*theta/30.0;
     const double delta = -1.0 / 12.0 + theta*theta/180.0;
 
     return Eigen::Matrix3d(
-- 
2.43.0


From 0645d74ac87569fd7b5fb8892c4705e7bfefa497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:47 +0000
Subject: [PATCH 27/35] fix: access metadata of const layers and refuse it as
 another type

HolderBase::get() const did not compile when used, and asking for metadata as
another type than it was created with dereferenced the null pointer of the
failed cast instead of throwing as documented.
---
 src/core/Holder.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/core/Holder.hpp b/src/core/Holder.hpp
index 9f77c5e..0cc33be 100644
--- a/src/core/Holder.hpp
+++ b/src/core/Holder.hpp
@@ -2,6 +2,7 @@
 #define ENVIRE_HOLDER__
 
 #include <boost/noncopyable.hpp>
+#include <stdexcept>
 
 namespace envire
 {
@@ -64,13 +65,19 @@ namespace envire
     }
     template <typename T> T& HolderBase::get()
     {
-        return *dynamic_cast< Holder<T>* >(this)->getData();
+        Holder<T>* myself = dynamic_cast< Holder<T>* >(this);
+        if( !myself )
+            throw std::runtime_error("data type mismatch.");
+        return *myself->getData();
     }
 
     template <typename T> 
     const T& HolderBase::get() const
     {
-        return *dynamic_cast< Holder<T>* >(this)->getData();
+        Holder<T> const* myself = dynamic_cast< Holder<T> const* >(this);
+        if( !myself )
+            throw std::runtime_error("data type mismatch.");
+        return *myself->getData();
     }
 }
 
-- 
2.43.0


From f68f62d88e7c09d51103bb27061a683a0036eacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:43 +0000
Subject: [PATCH 28/35] fix: initialise the memory pool of copied list grids

The assignment in the copy constructor deleted an uninitialised pointer.
---
 src/tools/ListGrid.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/ListGrid.hpp b/src/tools/ListGrid.hpp
index c22e879..8d9ed9a 100644
--- a/src/tools/ListGrid.hpp
+++ b/src/tools/ListGrid.hpp
@@ -77,6 +77,7 @@ public:
     }
 
     ListGrid( const ListGrid<C>& other )
+	: mem_pool(NULL)
     {
 	// use the assignment operator
 	this->operator=( other );
-- 
2.43.0


From 434fcea82ce8b8dabc17dfc155ead24388f699f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:43 +0000
Subject: [PATCH 29/35] fix: relink the first item of a list grid cell when
 moving the grid

The back link of the first item kept pointing to the array from before the
move, so erasing the item wrote to freed memory and left it in its cell.
---
 src/tools/ListGrid.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/ListGrid.hpp b/src/tools/ListGrid.hpp
index 8d9ed9a..7bd1f1c 100644
--- a/src/tools/ListGrid.hpp
+++ b/src/tools/ListGrid.hpp
@@ -163,6 +163,8 @@ public:
                 else
                 {
                     cells[newX][newY] = tmp[x][y];
+                    if(cells[newX][newY])
+                        cells[newX][newY]->pthis = &cells[newX][newY];
                 }
             }
         }        
-- 
2.43.0


From d9a790bf5ccbc6b8776d63e42ed31befa3b4bfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:54 +0000
Subject: [PATCH 30/35] fix: keep patch count, index and extents up to date
 when moving an MLS grid

---
 src/maps/MLSGrid.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index 0dd3536..b150250 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -762,5 +762,19 @@ void MLSGrid::initIndex()
 void MLSGrid::move(int x, int y)
 {
     cells.move(x, y);
+
+    // patches may have left the grid, and all others are in other cells now
+    cellcount = 0;
+    extents = CellExtents();
+    if( index )
+	index->reset();
+    for(size_t xi=0;xi<cellSizeX;xi++)
+    {
+	for(size_t yi=0;yi<cellSizeY;yi++)
+	{
+	    for( iterator it = beginCell( xi,yi ); it != endCell(); it++ )
+		addCell( Position( xi, yi ) );
+	}
+    }
 }
 
-- 
2.43.0


From c2e0f0a5897fe0f6dcf86f94f939e353caeaba46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:54 +0000
Subject: [PATCH 31/35] fix: update the index of an MLS grid on assignment

The index kept listing the cells of the former content, so that merging and
matching the grid missed patches.
---
 src/maps/MLSGrid.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index b150250..a1d22dc 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -54,6 +54,9 @@ MLSGrid& MLSGrid::operator=(const MLSGrid& other)
 	extents = other.extents;
 	config = other.config;
 	cellcount = other.cellcount;
+	// an index has to refer to the new content
+	if( index )
+	    initIndex();
     }
 
     return *this;
-- 
2.43.0


From b5a43486fd11508682e4bd6380a452df1d4d62aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:54 +0000
Subject: [PATCH 32/35] fix: intervals that contain each other overlap

An interval within another one (or equal to it) was not taken to overlap with
it, so that patches enclosed by a new measurement were not merged with it.
---
 src/maps/MLSPatch.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/maps/MLSPatch.hpp b/src/maps/MLSPatch.hpp
index 12db02c..6b14605 100644
--- a/src/maps/MLSPatch.hpp
+++ b/src/maps/MLSPatch.hpp
@@ -11,9 +11,7 @@ namespace envire
 template <class T>
 inline bool overlap( T a1, T a2, T b1, T b2 )
 {
-    return 
-	((a1 < b2) && (a2 > b2)) ||
-	((a1 < b1) && (a2 > b1));
+    return (a1 < b2) && (a2 > b1);
 }
 
 
-- 
2.43.0


From 6354187f52b05d753d20201c7ca5b73bb3f7ca4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:28 +0000
Subject: [PATCH 33/35] fix: divide the density of a gaussian by the root of
 the determinant of its covariance

---
 src/tools/GaussianMixture.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/GaussianMixture.hpp b/src/tools/GaussianMixture.hpp
index 5fce0bc..c785184 100644
--- a/src/tools/GaussianMixture.hpp
+++ b/src/tools/GaussianMixture.hpp
@@ -59,7 +59,7 @@ template <class _Scalar, int _Dimension, class _Adapter = EigenAdapter<_Scalar,
 	Eigen::Matrix<Scalar,1,1> e = d.transpose() * cov.inverse() * d;
 	Scalar res = 
 	    pow( 2.0 * M_PI, -Dimension/2.0 )
-	    * sqrt( cov.determinant() )
+	    / sqrt( cov.determinant() )
 	    * exp( -0.5 * e[0] );
 
 	return res;
-- 
2.43.0


From 7cc9cd4f6273d1add49f99b4ae33937dc3a0f034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:28 +0000
Subject: [PATCH 34/35] fix: weight the components when evaluating a gaussian
 mixture

---
 src/tools/GaussianMixture.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/GaussianMixture.hpp b/src/tools/GaussianMixture.hpp
index c785184..014200f 100644
--- a/src/tools/GaussianMixture.hpp
+++ b/src/tools/GaussianMixture.hpp
@@ -117,7 +117,7 @@ public:
     {
 	Scalar v = 0;
 	for( size_t j=0; j<params.size(); j++ )
-	    v += params[j].dist.eval( s );
+	    v += params[j].weight * params[j].dist.eval( s );
 
 	return v;
     }
-- 
2.43.0


From 8ad1ce2d2fc8bc886513bc0b57c3d427aaaeef78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:30 +0000
Subject: [PATCH 35/35] fix: check the attributes, not the variances, when
 cutting the attributes of a cloud

---
 src/operators/CutPointcloud.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/CutPointcloud.cpp b/src/operators/CutPointcloud.cpp
index bb7d9b6..2de614c 100644
--- a/src/operators/CutPointcloud.cpp
+++ b/src/operators/CutPointcloud.cpp
@@ -122,7 +122,7 @@ bool CutPointcloud::updateAll(){
                 target_vertex_normal_data->push_back( normal_rot * source_vertex_normal_data->at(i) );
             if(source_vertex_color_data && source_vertex_color_data->size() > i)
                 target_vertex_color_data->push_back( source_vertex_color_data->at(i) );
-            if(source_vertex_attributes_data && source_vertex_variance_data->size() > i)
+            if(source_vertex_attributes_data && source_vertex_attributes_data->size() > i)
                 target_vertex_attributes_data->push_back( source_vertex_attributes_data->at(i) );
             if(source_vertex_variance_data && source_vertex_variance_data->size() > i)
                 target_vertex_variance_data->push_back( source_vertex_variance_data->at(i) );
-- 
2.43.0

