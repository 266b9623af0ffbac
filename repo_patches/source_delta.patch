From a9abaf101326d1f6f0ab99326b65f804810c6177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 01/56] fix: keywords only end where the name ends (names such
 as ISphere or ScriptedBox parse)

---
 vrml/vrml97/parser.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/vrml/vrml97/parser.py b/vrml/vrml97/parser.py
index 7538e50..4ede915 100644
--- a/vrml/vrml97/parser.py
+++ b/vrml/vrml97/parser.py
@@ -19,44 +19,46 @@ from simpleparse.common import chartypes
 grammar = r'''
 header         := -[\n]*
 vrmlFile       := header, vrmlScene, !, EOF
-rootItem       := ts,(Proto/ExternProto/ROUTE/('USE',ts,USE,ts)/Script/Node),ts
+rootItem       := ts,(Proto/ExternProto/ROUTE/('USE',kwend,ts,USE,ts)/Script/Node),ts
 vrmlScene      := rootItem*
 
-Proto          := 'PROTO',ts,!, nodegi,ts,'[',ts,(fieldDecl/eventDecl)*,']', ts, '{', ts, vrmlScene,ts, '}', ts
+Proto          := 'PROTO',kwend,ts,!, nodegi,ts,'[',ts,(fieldDecl/eventDecl)*,']', ts, '{', ts, vrmlScene,ts, '}', ts
 fieldDecl	   := fieldExposure,ts,!,dataType,ts,name,ts,Field,ts
-fieldExposure  := 'field'/'exposedField'
+fieldExposure  := ('field'/'exposedField'),kwend
 dataType       := ('SF'/'MF')?,name
 eventDecl      := eventDirection, ts, !,dataType, ts, name, ts
-eventDirection := 'eventIn'/'eventOut'
-ExternProto    := 'EXTERNPROTO',ts,!,nodegi,ts,'[',ts,(extFieldDecl/eventDecl)*,']', ts, ExtProtoURL
+eventDirection := ('eventIn'/'eventOut'),kwend
+ExternProto    := 'EXTERNPROTO',kwend,ts,!,nodegi,ts,'[',ts,(extFieldDecl/eventDecl)*,']', ts, ExtProtoURL
 extFieldDecl   := fieldExposure,ts,!,dataType,ts,name,ts
 ExtProtoURL    := '['?,(ts,SFString)*, ts, ']'?, ts  # just an MFString by another name :)
 
-ROUTE          := 'ROUTE',ts, !,name,'.',name, ts, 'TO', ts, name,'.',name, ts
+ROUTE          := 'ROUTE',kwend,ts, !,name,'.',name, ts, 'TO',kwend, ts, name,'.',name, ts
 
-Node           := ('DEF',ts,!,name,ts)?,nodegi,ts,'{',ts,(Proto/ExternProto/ROUTE/Attr)*,ts,!,'}', ts
+Node           := ('DEF',kwend,ts,!,name,ts)?,nodegi,ts,'{',ts,(Proto/ExternProto/ROUTE/Attr)*,ts,!,'}', ts
 
-Script         := ('DEF',ts,!,name,ts)?,'Script',ts,!,'{',ts,(ScriptFieldDecl/ScriptEventDecl/Proto/ExternProto/ROUTE/Attr)*,ts,'}', ts
-ScriptEventDecl := eventDirection, ts, !,dataType, ts, name, ts, ('IS', ts,!, IS,ts)?
-ScriptFieldDecl := fieldExposure,ts,!,dataType,ts,name,ts,(('IS', ts,!,IS,ts)/Field),ts
+Script         := ('DEF',kwend,ts,!,name,ts)?,'Script',kwend,ts,!,'{',ts,(ScriptFieldDecl/ScriptEventDecl/Proto/ExternProto/ROUTE/Attr)*,ts,'}', ts
+ScriptEventDecl := eventDirection, ts, !,dataType, ts, name, ts, ('IS',kwend, ts,!, IS,ts)?
+ScriptFieldDecl := fieldExposure,ts,!,dataType,ts,name,ts,(('IS',kwend, ts,!,IS,ts)/Field),ts
 
-SFNull         := 'NULL', ts
+SFNull         := 'NULL', kwend, ts
 
 # should really have an optimised way of declaring a different reporting name for the same production...
 USE            := name
 IS             := name
 nodegi         := name 
-Attr           := name, ts, (('IS', ts,IS,ts)/Field), ts
-Field          := ( '[',ts,((vector/SFNumber/SFBool/SFString/('USE',ts,USE,ts)/Script/Node),ts)*, ']'!, ts )/((SFNumber/SFBool/SFNull/SFString/('USE',ts,USE,ts)/Script/Node),ts)+
+Attr           := name, ts, (('IS',kwend, ts,IS,ts)/Field), ts
+Field          := ( '[',ts,((vector/SFNumber/SFBool/SFString/('USE',kwend,ts,USE,ts)/Script/Node),ts)*, ']'!, ts )/((SFNumber/SFBool/SFNull/SFString/('USE',kwend,ts,USE,ts)/Script/Node),ts)+
 
 vector         := '[',ts,((vector/SFNumber),ts)*,']'
 name           := -[][0-9{}\000-\020"'#,.\\ ],  -[][{}\000-\020"'#,.\\ ]*
 SFNumber       := [-+]*, ( ('0',[xX],[0-9A-Fa-f]+) / ([0-9.]+,([eE],[-+0-9.]+)?))
-SFBool         := 'TRUE'/'FALSE'
+SFBool         := ('TRUE'/'FALSE'),kwend
 SFString       := '"',(CHARNODBLQUOTE/ESCAPEDCHAR/SIMPLEBACKSLASH)*,'"'!
 CHARNODBLQUOTE :=  -[\134"]+
 SIMPLEBACKSLASH := '\134'
 ESCAPEDCHAR    := '\\"'/'\134\134'
+# a keyword is only a keyword where the name ends (ScriptedDoor is a name)
+<kwend>        := ?[][{}\000-\020"'#,.\\ ]/EOF
 <ts>           :=  ( [ \011-\015,]+ / ('#',-'\012'*,'\n')+ )*
 '''
 
-- 
2.43.0


From ebbdf635a940511b3efc619b78ed5b7b06dfd4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:55 +0000
Subject: [PATCH 02/56] fix: parse empty scenes, comments ended by the end of
 the file, and CR-only line ends

---
 vrml/vrml97/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vrml/vrml97/parser.py b/vrml/vrml97/parser.py
index 4ede915..b463c09 100644
--- a/vrml/vrml97/parser.py
+++ b/vrml/vrml97/parser.py
@@ -17,8 +17,8 @@ from simpleparse.common import chartypes
 
 #print file
 grammar = r'''
-header         := -[\n]*
-vrmlFile       := header, vrmlScene, !, EOF
+header         := -[\n\r]*
+vrmlFile       := header, vrmlScene, ts, !, EOF
 rootItem       := ts,(Proto/ExternProto/ROUTE/('USE',kwend,ts,USE,ts)/Script/Node),ts
 vrmlScene      := rootItem*
 
@@ -59,7 +59,7 @@ SIMPLEBACKSLASH := '\134'
 ESCAPEDCHAR    := '\\"'/'\134\134'
 # a keyword is only a keyword where the name ends (ScriptedDoor is a name)
 <kwend>        := ?[][{}\000-\020"'#,.\\ ]/EOF
-<ts>           :=  ( [ \011-\015,]+ / ('#',-'\012'*,'\n')+ )*
+<ts>           :=  ( [ \011-\015,]+ / ('#',-[\n\r]*) )*
 '''
 
 class VRMLParser( Parser ):
-- 
2.43.0


From 77de5abe38887c575d02f0854a13fbb92532436c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:33 +0000
Subject: [PATCH 03/56] fix: node defaults and event types follow the VRML97
 standard (ElevationGrid spacing, NavigationInfo type, MovieTexture
 duration_changed)

---
 vrml/vrml97/basenodes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vrml/vrml97/basenodes.py b/vrml/vrml97/basenodes.py
index ce401cb..fc8b84b 100644
--- a/vrml/vrml97/basenodes.py
+++ b/vrml/vrml97/basenodes.py
@@ -166,7 +166,7 @@ class ElevationGrid( nodetypes.Geometry, node.Node ):
     PROTO = 'ElevationGrid'
     #Fields
     zDimension = field.newField( 'zDimension', 'SFInt32', 0, 0)
-    xSpacing = field.newField( 'xSpacing', 'SFFloat', 0, 0.0)
+    xSpacing = field.newField( 'xSpacing', 'SFFloat', 0, 1.0)
     creaseAngle = field.newField( 'creaseAngle', 'SFFloat', 0, 0.0)
     normal = field.newField( 'normal', 'SFNode', 1, node.NULL)
     solid = field.newField( 'solid', 'SFBool', 0, 1)
@@ -176,7 +176,7 @@ class ElevationGrid( nodetypes.Geometry, node.Node ):
     color = field.newField( 'color', 'SFNode', 1, node.NULL)
     colorPerVertex = field.newField( 'colorPerVertex', 'SFBool', 0, 1)
     xDimension = field.newField( 'xDimension', 'SFInt32', 0, 0)
-    zSpacing = field.newField( 'zSpacing', 'SFFloat', 0, 0.0)
+    zSpacing = field.newField( 'zSpacing', 'SFFloat', 0, 1.0)
     normalPerVertex = field.newField( 'normalPerVertex', 'SFBool', 0, 1)
     #Events
     set_height = field.newEvent( 'set_height', 'MFFloat', 0)
@@ -321,7 +321,7 @@ class MovieTexture( nodetypes.Auditory, nodetypes.Texture, nodetypes.TimeDepende
     repeatT = field.newField( 'repeatT', 'SFBool', 0, 1)
     loop = field.newField( 'loop', 'SFBool', 1, 0)
     #Events
-    duration_changed = field.newEvent( 'duration_changed', 'SFFloat', 1)
+    duration_changed = field.newEvent( 'duration_changed', 'SFTime', 1)
     isActive = field.newEvent( 'isActive', 'SFBool', 1)
 
 class NavigationInfo( nodetypes.Children, nodetypes.NavigationInfo, node.Node ):
@@ -330,7 +330,7 @@ class NavigationInfo( nodetypes.Children, nodetypes.NavigationInfo, node.Node ):
     speed = field.newField( 'speed', 'SFFloat', 1, 1.0)
     avatarSize = field.newField( 'avatarSize', 'MFFloat', 1, [0.25, 1.6000000000000001, 0.75])
     headlight = field.newField( 'headlight', 'SFBool', 1, 1)
-    type = field.newField( 'type', 'MFString', 1, ['WALK'])
+    type = field.newField( 'type', 'MFString', 1, ['WALK', 'ANY'])
     visibilityLimit = field.newField( 'visibilityLimit', 'SFFloat', 1, 0.0)
     #Events
     set_bind = field.newEvent( 'set_bind', 'SFBool', 0)
-- 
2.43.0


From a4caacd834a442e988812d190a93c10f6d4d6acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 04/56] fix: read VRML97 integers with leading zeros as decimal

---
 vrml/vrml97/parseprocessor.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index 670236e..c9d681b 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -19,6 +19,15 @@ def getString(*args, **named):
     return as_str(base)
 
 
+def asInt(text):
+    """Convert a VRML97 integer (decimal, or hexadecimal with 0x) to an int
+
+    Leading zeros do not change the base of a decimal VRML97 integer.
+    """
+    text = as_str(text)
+    return long(text, 16 if 'x' in text.lower() else 10)
+
+
 class ParseProcessor(DispatchProcessor):
     """Builds in-memory node-graph from VRML97 parse-tree"""
 
@@ -371,7 +380,7 @@ class ParseProcessor(DispatchProcessor):
 
     def SFInt32(self, table, buffer):
         (tup,) = table
-        return int(getString(tup, buffer), 0)
+        return asInt(getString(tup, buffer))
 
     def SFVec3f(self, table, buffer):
         return [float(getString(item, buffer)) for item in table]
@@ -400,13 +409,13 @@ class ParseProcessor(DispatchProcessor):
         # localisation
         if not tuples:
             return []
-        return [int(buffer[start:stop], 0) for (tag, start, stop, children) in tuples]
+        return [asInt(buffer[start:stop]) for (tag, start, stop, children) in tuples]
 
     SFImage = MFInt32
 
     def MFUInt32(self, tuples, buffer):
         # localisation
-        return [long(buffer[start:stop], 0) for (tag, start, stop, children) in tuples]
+        return [asInt(buffer[start:stop]) for (tag, start, stop, children) in tuples]
 
     def MFFloat(self, tuples, buffer):
         return [float(buffer[start:stop]) for (tag, start, stop, children) in tuples]
-- 
2.43.0


From d95de4ac78c10e3a9cc75bc2cd3b00f88ffe6f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 05/56] fix: refuse field values of the wrong kind instead of
 silently converting or dropping them

---
 vrml/vrml97/parseprocessor.py | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index c9d681b..0c92c74 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -355,16 +355,34 @@ class ParseProcessor(DispatchProcessor):
     def Field(self, table, buffer):
         '''A field value (of any type)'''
         (tag, start, stop, sublist) = table
-        if sublist and sublist[0][0] in ('USE', 'Script', 'Node', 'SFNull'):
-            if self.fieldTypeStack[-1] == 'SFNode':
-                return dispatch(self, sublist[0], buffer)
-            else:
-                return dispatchList(self, sublist, buffer)
-        elif self.fieldTypeStack[-1] == 'MFNode':
-            return []
+        dataType = self.fieldTypeStack[-1]
+        # values of the wrong kind must not be silently converted or dropped
+        if dataType in ('SFNode', 'MFNode'):
+            accepted = ('USE', 'Script', 'Node', 'SFNull')
+        elif dataType in ('SFString', 'MFString'):
+            accepted = ('SFString',)
+        elif dataType == 'SFBool':
+            accepted = ('SFBool',)
+        else:
+            accepted = ('SFNumber', 'vector')
+        for item in sublist:
+            if item[0] not in accepted:
+                raise ValueError(
+                    """Value of type %s for an %s field on line %s"""
+                    % (item[0], dataType, lines(end=item[1], buffer=buffer))
+                )
+        if dataType == 'SFNode':
+            if len(sublist) != 1:
+                raise ValueError(
+                    """%s values for an SFNode field on line %s"""
+                    % (len(sublist), lines(end=start, buffer=buffer))
+                )
+            return dispatch(self, sublist[0], buffer)
+        elif dataType == 'MFNode':
+            return dispatchList(self, sublist, buffer)
         else:
             # is a simple data type...
-            function = getattr(self, self.fieldTypeStack[-1])
+            function = getattr(self, dataType)
             return function(sublist, buffer)
 
     def SFBool(self, table, buffer):
-- 
2.43.0


From 367ae6ed7a632c6ca4b100b6d544457c71505b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 06/56] fix: NULL compares equal to NULL only, and is hashable

---
 vrml/node.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/vrml/node.py b/vrml/node.py
index 7fbcc36..9db1d9b 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -282,11 +282,13 @@ class NullNode(Node):
 
     def __eq__(self, other):
         """Compare the NULL node to other objects"""
-        try:
-            if protoName(self) == protoName(other):
-                return 0
-        except (AttributeError, TypeError, ValueError):
-            return -1  # could be 1, doesn't really matter
+        return isinstance(other, NullNode)
+
+    def __ne__(self, other):
+        """Compare the NULL node to other objects"""
+        return not isinstance(other, NullNode)
+
+    __hash__ = Node.__hash__
 
     def clone(self):
         """Replicate the null object (return another pointer to it)"""
-- 
2.43.0


From ffa0df7e7ad9ac4b2701b808ce561d0827c666e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 07/56] fix: arrays compare equal only when every element does
 (toString dropped values)

---
 vrml/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/arrays.py b/vrml/arrays.py
index 2c765f9..0cbf8ac 100644
--- a/vrml/arrays.py
+++ b/vrml/arrays.py
@@ -75,7 +75,7 @@ def safeCompare(first, second):
     if isinstance(first, (int, float, str)):
         return first == second
     if isinstance(first, ArrayType) and isinstance(second, ArrayType):
-        return bool(any(first == second))
+        return shape(first) == shape(second) and bool((first == second).all())
     elif type(first) != type(second):
         return False
     return bool(first == second)
-- 
2.43.0


From fe73986f61f01435dfa484c4686b27a8fe1521ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 08/56] fix: getField returns the field object for storage
 names

---
 vrml/protofunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrml/protofunctions.py b/vrml/protofunctions.py
index fd1fa1b..6f495a6 100644
--- a/vrml/protofunctions.py
+++ b/vrml/protofunctions.py
@@ -129,11 +129,11 @@ def getField(cls, field):
         # OK, may be a space-prefixed name...
         for fieldObject in getFields(cls):
             if fieldObject.name == field:
-                return field
+                return fieldObject
         # OK, may be an event with space-prefixed name
         for fieldObject in getFields(cls, 1):
             if fieldObject.name == field:
-                return field
+                return fieldObject
         # OK, may be one of the "component" events
         # of a field...
         if field.startswith("set_"):
-- 
2.43.0


From 1c7614bf10a1b9e9be30eecd18b3872a170524e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 09/56] fix: deleting a field value deletes it in the
 pure-Python field as in the accelerated one

---
 vrml/field.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/vrml/field.py b/vrml/field.py
index 95b8e09..23af6db 100644
--- a/vrml/field.py
+++ b/vrml/field.py
@@ -166,20 +166,22 @@ else:
             return defaultobj
 
         def __delete__(self, client):
-            """Delete our value from client's dictionary"""
+            """Delete our value from client's dictionary (notifies)"""
+            if client is not None:
+                self.fdel(client)
+
+        def fdel(self, client, notify=True):
+            """Delete with option to notify"""
             try:
-                client.__dict__[self.name]
+                value = client.__dict__.pop(self.name)
             except KeyError:
                 raise AttributeError(self.name)
-
-        def fdel(self, client, notify=True):
-            """Delete with notify"""
-            self.__delete__(client)
             if notify:
                 dispatcher.send(
                     ('del', self),
                     client,
                 )
+            return value
 
 
 class Field(BaseField):
-- 
2.43.0


From 81b7047fb39786d935cb6e7a498b1995e8626a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:06 +0000
Subject: [PATCH 10/56] fix: OList deletes items, stays an OList on +=, and
 reports every change once it is made

---
 vrml/olist.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/vrml/olist.py b/vrml/olist.py
index c129852..b7cc8ec 100644
--- a/vrml/olist.py
+++ b/vrml/olist.py
@@ -81,12 +81,13 @@ class OList( list ):
         """Delete a single item"""
         if isinstance( index, slice ):
             current = self.__getitem__( index )
+            super( OList,self ).__delitem__( index )
             for value in current:
                 self._sendRemoved( value )
-            super( OList,self ).__delitem__( index )
             return current 
         else:
             value = self[index]
+            super( OList,self ).__delitem__( index )
             self._sendRemoved( value )
         return value
     def __delslice__( self, i,j):
@@ -111,16 +112,25 @@ class OList( list ):
             return values 
         else:
             current = self[index]
-            if current is not value:
-                self._sendRemoved( current )
             super( OList,self ).__setitem__( index, value )
             if current is not value:
+                self._sendRemoved( current )
                 self._sendAdded( value )
             return value 
     def __setslice__( self, i,j, iterable ):
         return self.__setitem__( slice(i,j), iterable)
     def __iadd__( self, iterable ):
         """Do an in-place add"""
+        self.extend( iterable )
+        return self
+    def extend( self, iterable ):
+        """Append each value from iterable"""
         return self.__setitem__( slice(len(self),len(self)), iterable )
-    extend = __iadd__
+    def __imul__( self, count ):
+        """Do an in-place repetition"""
+        self[:] = list(self) * count
+        return self
+    def clear( self ):
+        """Remove all of the values"""
+        del self[:]
     
-- 
2.43.0


From 9d95a84cf859416a4a396e293b31e7c4267bed62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 11/56] fix: node lists report every change from their node,
 for their own field only, however they were set

---
 vrml/node.py | 67 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 24 deletions(-)

diff --git a/vrml/node.py b/vrml/node.py
index 9db1d9b..27e878f 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -379,6 +379,10 @@ class SFNode(_SFNode, field.Field):
     a sub-class of _SFNode and field.Field
     """
 
+    def __set__(self, client, value):
+        """Set value for given instance"""
+        self.fset(client, value)
+
 
 SFNode.requiredTypes = (Node,)
 
@@ -444,14 +448,16 @@ assert Node.rootSceneGraph.name == " root", Node.rootSceneGraph.name
 
 def _changeSender(nodeRef, field):
     """Utility function to send node-change messages on olist updates"""
+    watched = field
 
-    def onOListChange(sender, signal, value):
+    def onOListChange(sender, signal, value, field=None):
         client = nodeRef()
-        if client:
+        # a node with several MFNode fields sends all of their updates
+        if client is not None and field is watched:
             dispatcher.send(
-                ('set', field),
+                ('set', watched),
                 client,
-                value=sender,
+                value=client.__dict__.get(watched.name),
                 subsignal=signal,
                 subvalue=value,
             )
@@ -480,30 +486,14 @@ class _MFNode(object):
         without sending notify events.
         """
         previous = client.__dict__.get(self.name)
-        if previous is not None:
+        if isinstance(previous, self.baseObjectType):
             previous[:] = self.coerce(value)
             value = previous
+            if notify:
+                dispatcher.send(('set', self), client, value=value)
         else:
             value = super(_MFNode, self).fset(client, value, notify)
-            # register for updates to the list...
-            # we just send "changed" events for the field whenever
-            # there's an update to the list... a bit wasteful, as
-            # our clients might want to know about just the changed
-            # values, but for now...
-            value.setSender(client, field=self)
-            cs = _changeSender(weakref.ref(client), self)
-            dispatcher.connect(
-                cs,
-                sender=client,
-                signal=olist.OList.DEL_CHILD_EVT,
-                weak=False,  # don't weakref receiver so it will hang around...
-            )
-            dispatcher.connect(
-                cs,
-                sender=client,
-                signal=olist.OList.NEW_CHILD_EVT,
-                weak=False,  # don't weakref receiver so it will hang around...
-            )
+            self._watchList(client, value)
         if value:
             clientRoot = Node.rootSceneGraph.fget(client)
             if clientRoot:
@@ -513,6 +503,24 @@ class _MFNode(object):
                         Node.rootSceneGraph.fset(val, clientRoot, notify=0)
         return value
 
+    def _watchList(self, client, value):
+        """Register for updates to the list-of-objects value
+
+        we just send "changed" events for the field whenever
+        there's an update to the list... a bit wasteful, as
+        our clients might want to know about just the changed
+        values, but for now...
+        """
+        value.setSender(client, field=self)
+        cs = _changeSender(weakref.ref(client), self)
+        for signal in (olist.OList.DEL_CHILD_EVT, olist.OList.NEW_CHILD_EVT):
+            dispatcher.connect(
+                cs,
+                sender=client,
+                signal=signal,
+                weak=False,  # don't weakref receiver so it will hang around...
+            )
+
     def coerce(self, value):
         """Coerce value to an MFNode list-of-objects"""
         SF = self.__class__.baseSFNode
@@ -547,6 +555,17 @@ class _MFNode(object):
 class MFNode(_MFNode, field.Field):
     """MFNode Field class"""
 
+    def __set__(self, client, value):
+        """Set value for given instance"""
+        self.fset(client, value)
+
+    def getDefault(self, client=None):
+        """Get the default value, watching the list stored for client"""
+        value = super(MFNode, self).getDefault(client)
+        if client is not None and not isinstance(client, type):
+            self._watchList(client, value)
+        return value
+
 
 class MFNodeEvt(_MFNode, field.Event):
     """MFNode Event class"""
-- 
2.43.0


From 243cf4067881a65211f43ede96d3e6bcc89091fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:23 +0000
Subject: [PATCH 12/56] fix: copying a node copies its sub-graph, keeps sharing
 within it, and leaves the original's nodes alone

---
 vrml/node.py              | 31 +++++++++++++++++++++++++------
 vrml/vrml97/scenegraph.py |  9 +++++++--
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/vrml/node.py b/vrml/node.py
index 27e878f..a94725f 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -130,13 +130,15 @@ class Node(object):
         previous = copier.use(self)
         if previous is not None:
             return previous
-        dictionary = {}
-        for field in getFields(self):
-            if field.fhas(self):
-                dictionary[field.name] = field.copy(self, copier)
         newNode = type(self).__new__(type(self))
-        newNode.__dict__.update(dictionary)
+        # registered first, values may refer back to the node itself
         copier.use(self, newNode)
+        for field in getFields(self):
+            if field.fhas(self):
+                value = field.copy(self, copier)
+                newNode.__dict__[field.name] = value
+                if isinstance(field, MFNode):
+                    field._watchList(newNode, value)
         return newNode
 
     def toString(self, **namedargs):
@@ -367,6 +369,12 @@ class _SFNode(object):
                 % (self.name, repr(value), self.requiredTypes)
             )
 
+    def copyValue(self, value, copier=None):
+        """Copy a value for copier"""
+        if not isinstance(value, Node) or value == NULL:
+            return value
+        return value.copy(copier or copiermodule.Copier())
+
     def vrmlstr(self, value, lineariser):
         """Convert the given value to a VRML97 representation"""
         return lineariser._linear(value)
@@ -400,6 +408,12 @@ class WeakSFNode(_SFNode, field.WeakField, field.Field):
 
     fieldType = 'WeakSFNode'
 
+    def copyValue(self, value, copier=None):
+        """Refer to the copied node if there is one, the same node otherwise"""
+        if not value:
+            return value
+        return weakref.ref((copier and copier.use(value)) or value)
+
 
 class RootScenegraphNode(WeakSFNode):
     fieldType = 'RootScenegraphNode'
@@ -543,7 +557,12 @@ class _MFNode(object):
     def copyValue(self, value, copier=None):
         """Copy a value for copier"""
         SF = self.__class__.baseSFNode
-        return [SF.copyValue(node, copier) for node in value]
+        if isinstance(value, type):
+            return value
+        copier = copier or copiermodule.Copier()
+        return self.baseObjectType(
+            [SF.copyValue(node, copier) for node in value if isinstance(node, Node)]
+        )
 
 
 ##class WeakMFNode( MFNode ):
diff --git a/vrml/vrml97/scenegraph.py b/vrml/vrml97/scenegraph.py
index 83eedf2..00c28f0 100644
--- a/vrml/vrml97/scenegraph.py
+++ b/vrml/vrml97/scenegraph.py
@@ -160,6 +160,9 @@ class SceneGraph( nodetypes.Traversable, node.Node ):
         """Copy this node for copier"""
         if copier is None:
             copier = copiermodule.Copier()
+        previous = copier.use( self )
+        if previous is not None:
+            return previous
         # order for creation is going to be important to make sure
         # that prototypes are available to nodes getting re-built
         # if we aren't sharing protos...
@@ -168,13 +171,15 @@ class SceneGraph( nodetypes.Traversable, node.Node ):
             for key,value in self.protoTypes.items():
                 newPrototypes[key] = protofunctions.copyProto( value, copier )
         else:
-            newPrototypes = self.protoTypes.copy()
+            newPrototypes = protonamespace.ProtoNamespace( self.protoTypes )
+        node = super( SceneGraph, self).copy( copier )
+        node.root = self.root
+        # the nodes are mostly copied already, as children of the scenegraph
         newDefs = {}
         for key,value in self.defNames.items():
             if (not key) or value is None:
                 continue
             newDefs[key] = value.copy( copier )
-        node = super( SceneGraph, self).copy( copier )
         node.protoTypes = newPrototypes
         node.defNames = newDefs
         return node
-- 
2.43.0


From 02035d47e02625e1af67832a95c50ed99f7c1519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:48 +0000
Subject: [PATCH 13/56] fix: PROTO instances own their nodes, and every IS
 destination receives the interface value

---
 vrml/node.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/vrml/node.py b/vrml/node.py
index a94725f..acc5e0e 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -200,6 +200,18 @@ class PrototypedNode(object):
         for fieldName, mappings in isMappings:
             sourceField = getField(self, fieldName)
             for destination, destinationField in mappings:
+                # the mappings are for the template's nodes
+                destination = copier.use(destination) or destination
+                if hasattr(sourceField, 'getDefault'):
+                    try:
+                        getField(destination, destinationField).fset(
+                            destination,
+                            sourceField.getDefault(),
+                            # a prototyped node maps the value in its turn
+                            notify=isinstance(destination, PrototypedNode),
+                        )
+                    except AttributeError:
+                        pass
                 r = route.IS(
                     source=self,
                     sourceField=fieldName,
@@ -207,16 +219,6 @@ class PrototypedNode(object):
                     destinationField=destinationField,
                 )
                 sg.routes.append(r)
-            if hasattr(sourceField, 'getDefault'):
-                default = sourceField.getDefault()
-                try:
-                    getField(destination, destinationField).fset(
-                        destination,
-                        default,
-                        notify=0,
-                    )
-                except AttributeError:
-                    pass
         PrototypedNode.scenegraph.fset(self, sg)
 
     def renderedChildren(self, types=None):
-- 
2.43.0


From c3ec50e7393f98cdc036891d2a66eaabf2877824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:48 +0000
Subject: [PATCH 14/56] fix: routing through an event port keeps the value and
 the event (no None values, duplicates or endless cycles)

---
 vrml/route.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vrml/route.py b/vrml/route.py
index 1297887..7cbb6ba 100644
--- a/vrml/route.py
+++ b/vrml/route.py
@@ -96,7 +96,14 @@ class ROUTE( node.Node ):
                     traceback.print_exc()
             else:
                 try:
-                    value = destinationField.__set__( destination, value )
+                    destinationField.__set__( destination, value, notify = 0 )
+                    # same event, so that cycles are seen and nodes visited once
+                    dispatcher.send(
+                        signal = ('set',destinationField),
+                        sender = destination,
+                        value = value,
+                        event = event,
+                    )
                 except (ValueError, TypeError):
                     traceback.print_exc()
             dispatcher.send(
-- 
2.43.0


From e608097766f6a9d8d06df8289fc00393f574aa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 15/56] fix: toString writes MFString values once and complete,
 and starts each time from the given indentation

---
 vrml/vrml97/linearise.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index daeac81..7f7cd62 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -56,9 +56,9 @@ class Lineariser:
     def __init__(self, linvalues=None, alreadydone=None, *args, **namedargs):
         if linvalues is None:
             linvalues = defaults
-        if namedargs:
-            linvalues = linvalues.copy()
-            linvalues.update(namedargs)
+        # always our own copy, the current indentation is stored there
+        linvalues = linvalues.copy()
+        linvalues.update(namedargs)
         self.linvalues = linvalues
         if alreadydone is None:
             self.alreadydone = {}
@@ -469,6 +469,12 @@ class Lineariser:
         Nodes, ProtoTypes and ExternProtos (well, not according to the
         parsers, but someone might attempt it).
         '''
+        if not getattr(field, 'nodes', 0) and hasattr(field, 'vrmlstr'):
+            # simple data-types never look like nodes, even if they are lists
+            result = field.vrmlstr(anyobj, self)
+            if result is not None:
+                self.buffer.write(result)
+            return
         try:
             if field is node.RootScenegraphNode:
                 return
-- 
2.43.0


From 9f0eb719b57ba108962ae68868d430c8f7104950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 16/56] fix: toString of a scenegraph which has callback routes

---
 vrml/vrml97/linearise.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index 7f7cd62..06b1e0d 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -123,7 +123,9 @@ class Lineariser:
         A little niave, the sceneGraph just outputs everything
         in its prototypes, then everything in its childlist, then all its ROUTES
         '''
-        [self._preroute(clientNode, route) for route in clientNode.routes]
+        # callback routes are not VRML97 content
+        routes = [route for route in clientNode.routes if isinstance(route, node.Node)]
+        [self._preroute(clientNode, route) for route in routes]
         if clientNode is None:
             startind = self.buffer.tell()
             if len(self.cursceneGraph) == 0:  # new file
@@ -161,7 +163,7 @@ class Lineariser:
             self._linear(child)
             buffer.write(self.linvalues['full_element_separator'])
         # linearise the routes
-        for route in clientNode.routes:
+        for route in routes:
             # should check here to make sure the ROUTEs are valid
             self._route(route)
             # buffer.write( '%(full_element_separator)sROUTE %%s.%%s TO %%s.%%s'%self.linvalues%route )
-- 
2.43.0


From 5f991f50b0600ca68304992d0c04e08257559904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 17/56] fix: toString keeps IS mappings of events and scripts,
 script values, and EXTERNPROTO interfaces without defaults

---
 vrml/vrml97/linearise.py | 86 ++++++++++++++++++++++++++++++++--------
 1 file changed, 69 insertions(+), 17 deletions(-)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index 06b1e0d..c0871ed 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -217,7 +217,7 @@ class Lineariser:
         # write the declaration...
         self._indent()
         self._eventDict(clientNode)
-        self._fieldDict(clientNode, requireDefault=1)  # clientNode.__gi__ == "PROTO")
+        self._fieldDict(clientNode, requireDefault=not externalURL)
         self._dedent()
         linvalues = self.linvalues
         if externalURL:
@@ -329,11 +329,20 @@ class Lineariser:
         self._indent()
         linvalues = self.linvalues
 
-        self._eventDict(getPrototype(clientNode))
+        isMaps = self._isMaps(clientNode)
+        self._eventDict(getPrototype(clientNode), isMaps=isMaps)
         self._fieldDict(
             getPrototype(clientNode),
             requireDefault=1,
-            skipFields=(' DEF', 'url', 'directOutput', 'mustEvaluate'),
+            skipFields=(
+                ' DEF',
+                'externalURL',
+                'url',
+                'directOutput',
+                'mustEvaluate',
+            ),
+            script=clientNode,
+            isMaps=isMaps,
         )
         self._dedent()
         self._attrDict(clientNode)
@@ -345,25 +354,33 @@ class Lineariser:
         self.alreadydone[id(clientNode)] = startind, buffer.tell()
         return None
 
-    def _attrDict(self, object):
-        """Write out the attribute dictionary for an object"""
-        buffer = self.buffer
-        linvalues = self.linvalues
+    def _isMaps(self, object):
+        """Get {field or event name: interface name} for object in current PROTO"""
+        isMaps = {}
         if self.curproto:
-            set = node.ismaps(self.curproto[-1])
-            isMaps = {}
-            for fieldName, fieldList in set.items():
+            for fieldName, fieldList in node.ismaps(self.curproto[-1]).items():
                 for n, field in fieldList:
                     if n is object:
                         isMaps[field] = fieldName
-        else:
-            isMaps = {}
+        return isMaps
+
+    def _attrDict(self, object):
+        """Write out the attribute dictionary for an object"""
+        buffer = self.buffer
+        linvalues = self.linvalues
+        isMaps = self._isMaps(object)
         if protoName(object) == "Script":
             items = [
                 field
                 for field in getFields(object)
                 if field.name in ('url', 'mustEvaluate', 'directOutput')
             ]
+            # the others are written with their declarations
+            isMaps = dict(
+                (field.name, isMaps[field.name])
+                for field in items
+                if field.name in isMaps
+            )
         else:
             items = [
                 field
@@ -379,7 +396,7 @@ class Lineariser:
                 buffer.write(
                     '%(full_element_separator)s%(curindent)s%(indent)s%%s IS %%s\t'
                     % linvalues
-                    % (field.name, isMaps.get(field.name))
+                    % (field.name, isMaps.pop(field.name))
                 )
             elif (
                 default is not None and not arrays.safeCompare(default, val)
@@ -390,8 +407,15 @@ class Lineariser:
                     % (field.name,)
                 )
                 self._sffield(val, field)
+        # events, including the set_x and x_changed events of fields
+        for eventName in sorted(isMaps):
+            buffer.write(
+                '%(full_element_separator)s%(curindent)s%(indent)s%%s IS %%s\t'
+                % linvalues
+                % (eventName, isMaps[eventName])
+            )
 
-    def _eventDict(self, clientNode):
+    def _eventDict(self, clientNode, isMaps=None):
         '''
         Event Dictionaries have two possible sources of information,
         the eventDict and the isNames dictionary.  The first provides
@@ -406,9 +430,23 @@ class Lineariser:
         for field in [f for f in fields if (f.name and f.name[0] != ' ')]:
             buffer.write('%(full_element_separator)s%(curindent)s' % (self.linvalues))
             field.eventVrmlstr(self)
-            # XXX do IS-mapping here!
+            if isMaps and field.name in isMaps:
+                buffer.write(' IS %s' % (isMaps[field.name],))
+
+    def _fieldDict(
+        self,
+        clientNode,
+        requireDefault=1,
+        skipFields=('DEF', 'externalURL'),
+        script=None,
+        isMaps=None,
+    ):
+        """Write the field declarations of the prototype clientNode
 
-    def _fieldDict(self, clientNode, requireDefault=1, skipFields=('DEF',)):
+        requireDefault -- whether to write the default values
+        script -- if given, Script node for which to write current values
+        isMaps -- {field name: interface name} for the script
+        """
         buffer = self.buffer
         fields = [
             field
@@ -420,7 +458,21 @@ class Lineariser:
         fields.sort(key=namekey)
         for field in fields:
             buffer.write('%(full_element_separator)s%(curindent)s' % (self.linvalues))
-            field.fieldVrmlstr(self)
+            if requireDefault and script is None:
+                field.fieldVrmlstr(self)
+                continue
+            buffer.write(
+                '%s %s %s '
+                % (
+                    field.exposure and 'exposedField' or 'field',
+                    field.typeName(),
+                    field.name,
+                )
+            )
+            if isMaps and field.name in isMaps:
+                buffer.write('IS %s' % (isMaps[field.name],))
+            elif script is not None:
+                self._sffield(field.fget(script), field)
 
     def _fieldref(self, clientNode, *args, **namedargs):
         self.buffer.write('IS %s' % clientNode.declaredName)
-- 
2.43.0


From 0bb60056338e37b172c05139e30390f9b9037ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 18/56] fix: toString rewrites shared unnamed nodes instead of
 reading them back from another buffer, and leaves out default values

---
 vrml/vrml97/linearise.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index c0871ed..e48d9f9 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -392,6 +392,9 @@ class Lineariser:
             # following slows us down, but prevents the chaff from showing up...
             val = field.fget(object)
             default = field.getDefault()
+            if default is not None:
+                # the default values are often not in the canonical representation
+                default = field.coerce(default)
             if field.name in isMaps:
                 buffer.write(
                     '%(full_element_separator)s%(curindent)s%(indent)s%%s IS %%s\t'
@@ -572,19 +575,15 @@ class Lineariser:
                 return 'USE ' + DEF
             # else have to linearise again, should warn the user
             else:
-                keyvals = self.alreadydone[id(clientNode)]
-                index = self.buffer.tell()
-                try:
-                    start, stop = keyvals
-                    self.buffer.seek(start)
-                    val = self.buffer.read(stop - start)
-                    self.buffer.seek(index)
-                    return (
-                        '#WARNING HERE -- USE of node with no DEF name, Node duplicated\n'
-                        + val
-                    )
-                except TypeError:
+                if not isinstance(self.alreadydone[id(clientNode)], tuple):
                     return '''#ERROR HERE -- USE of a parent node that has no DEF name USE ignored'''
+                # (re)written, rather than copied, as it may have been
+                # written to another buffer
+                self.buffer.write(
+                    '#WARNING HERE -- USE of node with no DEF name, Node duplicated\n'
+                )
+                ind = self.alreadydone[id(clientNode)] = self.buffer.tell()
+                return ind
         else:
             ind = self.alreadydone[id(clientNode)] = self.buffer.tell()
             return ind
-- 
2.43.0


From feb905f620c821cac73f2d53455af0e7c808d56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 19/56] fix: a path's matrix without rotation still follows
 changes of center, and invalidating a path reaches every descendent

---
 vrml/vrml97/nodepath.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrml/vrml97/nodepath.py b/vrml/vrml97/nodepath.py
index c5db622..d139b36 100644
--- a/vrml/vrml97/nodepath.py
+++ b/vrml/vrml97/nodepath.py
@@ -75,6 +75,7 @@ class _NodePath( object ):
                     holder.depend( item, 'scaleOrientation' )
                 if rotate:
                     holder.depend( item, 'rotation' )
+                if scale or rotate:
                     holder.depend( item, 'center' )
             return child_holder.data[inverse]
         matrix = transformmatrix.compressMatrices( 
@@ -126,8 +127,8 @@ class _NodePath( object ):
     def invalidate( self ):
         """Set this path to be invalid (and all children paths)"""
         self.broken = True 
-        for desc in self.iterdescendents( ):
-            desc.broken = True 
+        for child in self.iterchildren( ):
+            child.invalidate()
 
 class NodePath( _NodePath, nodepath.NodePath ):
     """Strong-reference version of VRML97 NodePath"""
-- 
2.43.0


From 28b4271e37467f4d390e1aa074d143c10f7fa04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 20/56] fix: transformmatrix.center works for moved transforms,
 and a zero rotation axis gives the same matrix with and without acceleration

---
 vrml/vrml97/_transformmatrix.py | 2 ++
 vrml/vrml97/transformmatrix.py  | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrml/vrml97/_transformmatrix.py b/vrml/vrml97/_transformmatrix.py
index f9de42a..8da19ed 100644
--- a/vrml/vrml97/_transformmatrix.py
+++ b/vrml/vrml97/_transformmatrix.py
@@ -23,6 +23,8 @@ def rotMatrix( source=None ):
         (x,y,z, a) = source
     if a % TWOPI:
         # normalize the rotation vector!
+        if x == y == z == 0.0:
+            y = 1.0
         squared = x*x + y*y + z*z
         if squared != 1.0:
             length = squared ** .5
diff --git a/vrml/vrml97/transformmatrix.py b/vrml/vrml97/transformmatrix.py
index 2cd2ca3..1cef5a4 100644
--- a/vrml/vrml97/transformmatrix.py
+++ b/vrml/vrml97/transformmatrix.py
@@ -188,6 +188,6 @@ def center(
     T,T1 = transMatrix( translation )
     C,C1 = transMatrix( center )
     for x in (T,C):
-        if x:
+        if x is not None:
             parentMatrix = dot( x, parentMatrix)
     return dot( ORIGINPOINT, parentMatrix )
-- 
2.43.0


From c813a51d7475d6a8ca7ad17d9f921ac5191c0e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 21/56] fix: strings for multiple-vector fields, flat lists for
 matrix fields, and double precision for MFVec2d

---
 vrml/fieldtypes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index 5911c56..1a1a4a3 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -527,7 +527,7 @@ class _SFVec(object):
             value = value.reshape(self.dimension)
         elif isinstance(value, field.SEQUENCE_TYPES):
             value = arrays.asarray([float(x) for x in collapse(value)], self.targetType)
-            value.reshape(self.dimension)
+            value = value.reshape(self.dimension)
         else:
             try:
                 value = arrays.asarray(value, self.targetType)
@@ -537,7 +537,7 @@ class _SFVec(object):
                     % (self.typeName(), repr(value))
                 )
             else:
-                value.reshape(self.dimension)
+                value = value.reshape(self.dimension)
         if value.shape != self.dimension:
             raise ValueError(
                 """%s value of incorrect shape (is %s, should be %s)"""
@@ -590,7 +590,7 @@ class _SFArray(object):
         if isinstance(value, (str, unicode)):
             value = [
                 float(x)
-                for x in value.replace(',', ' ').replace('[', ' ').replace(']').split()
+                for x in value.replace(',', ' ').replace('[', ' ').replace(']', ' ').split()
             ]
         if field.UNPACK_TYPES and isinstance(value, field.UNPACK_TYPES):
             value = list(value)
@@ -1050,7 +1050,7 @@ class MFVec2fEvt(
     fieldType = 'MFVec2f'
 
 
-class MFVec2d(_MFVec2f, field.Field):
+class MFVec2d(_MFVec2d, field.Field):
     """MFVec2d Field class"""
 
 
-- 
2.43.0


From 3fc261a30e139ee7ca167c2c614b1331a0becba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:08 +0000
Subject: [PATCH 22/56] fix: numbers which do not fit a field are refused with
 ValueError like other bad values

---
 accelerate/src/fieldaccel2.pyx | 2 +-
 vrml/field.py                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/accelerate/src/fieldaccel2.pyx b/accelerate/src/fieldaccel2.pyx
index 9abc0bb..555fce8 100644
--- a/accelerate/src/fieldaccel2.pyx
+++ b/accelerate/src/fieldaccel2.pyx
@@ -77,7 +77,7 @@ cdef class BaseField( object ):
         """Set value to give value, with coercion"""
         try:
             value = self.coerce( value )
-        except ValueError as x:
+        except (ValueError, OverflowError) as x:
             raise ValueError( """Field %s could not accept value %s (%s)"""%( self, value, x))
         except TypeError as x:
             raise ValueError( """Field %s could not accept value %s of type %s (%s)"""%( self, value, type(value), x))
diff --git a/vrml/field.py b/vrml/field.py
index 23af6db..b92ab0d 100644
--- a/vrml/field.py
+++ b/vrml/field.py
@@ -128,7 +128,7 @@ else:
         def _set(self, client, value):
             try:
                 value = self.coerce(value)
-            except ValueError as x:
+            except (ValueError, OverflowError) as x:
                 raise ValueError(
                     """Field %s could not accept value %s (%s)""" % (self, value, x)
                 )
-- 
2.43.0


From 980bc9632667b49efd78522f845d493418b58acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:30 +0000
Subject: [PATCH 23/56] fix: WeakList and WeakTuple work on Python 3

---
 vrml/weaklist.py  | 18 +++++++++++++-----
 vrml/weaktuple.py | 21 ++++++++++++---------
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/vrml/weaklist.py b/vrml/weaklist.py
index bfff2e0..50fd4bd 100644
--- a/vrml/weaklist.py
+++ b/vrml/weaklist.py
@@ -1,7 +1,7 @@
 """list sub-class which holds weak references to objects"""
 
 import weakref
-import types
+from functools import cmp_to_key
 
 class WeakList( list ):
     """list sub-class holding weakrefs to items
@@ -52,7 +52,7 @@ class WeakList( list ):
         """
         return [
             self.unwrap(obj)
-            for obj in super( WeakList,self).__getslice__(0,len(self))
+            for obj in super( WeakList,self).__getitem__(slice(None))
         ]
     def __iter__( self ):
         """Iterate over the list, yielding strong references"""
@@ -66,7 +66,7 @@ class WeakList( list ):
         if isinstance( index, slice ):
             item = [self.wrap(x) for x in item]
         else:
-            item = self.wrap(x)
+            item = self.wrap(item)
         return super( WeakList,self).__setitem__(
             index, item
         )
@@ -84,10 +84,18 @@ class WeakList( list ):
         return super( WeakList, self).extend([
             self.wrap(obj) for obj in sequence 
         ])
-    __iadd__ = extend
+    def __iadd__( self, sequence ):
+        """Extend this list in-place with another sequence"""
+        self.extend( sequence )
+        return self
 
     def __getitem__( self, index ):
         """Get the item at the given index"""
+        if isinstance( index, slice ):
+            return [
+                self.unwrap(obj)
+                for obj in super( WeakList,self).__getitem__( index )
+            ]
         return self.unwrap(super (WeakList,self).__getitem__( index))
     def pop( self, index=-1 ):
         """Pop an item from the list, removing it and returning it"""
@@ -116,7 +124,7 @@ class WeakList( list ):
         """
         t = self.get()
         if function is not None:
-            result = t.sort( function )
+            result = t.sort( key=cmp_to_key(function) )
         else:
             result = t.sort( )
         self[:] = t
diff --git a/vrml/weaktuple.py b/vrml/weaktuple.py
index 7ca6708..ebf98d9 100644
--- a/vrml/weaktuple.py
+++ b/vrml/weaktuple.py
@@ -25,13 +25,13 @@ class WeakTuple( tuple ):
     missing items as does the WeakList.  This can
     occur for basically _any_ use of the tuple.
     """
-    def __init__( self, sequence=() ):
+    def __new__( cls, sequence=() ):
         """Initialize the tuple
 
         The WeakTuple will store weak references to objects
         within the sequence.
         """
-        super( WeakTuple, self).__init__( [self.wrap(obj) for obj in sequence])
+        return super( WeakTuple, cls).__new__( cls, [cls.wrap(obj) for obj in sequence])
 
     def valid( self ):
         """Explicit validity check for the tuple
@@ -43,10 +43,11 @@ class WeakTuple( tuple ):
         try:
             list( self )
             return 1
-        except weakref.ReferenceError:
+        except ReferenceError:
             return 0
         
-    def wrap( self, item ):
+    @staticmethod
+    def wrap( item ):
         """Wrap an individual item in a weak-reference
 
         If the item is already a weak reference, we store
@@ -66,7 +67,7 @@ class WeakTuple( tuple ):
         """
         ref = item()
         if ref is None:
-            raise weakref.ReferenceError( """%s instance no longer valid (item %s has been collected)"""%( self.__class__.__name__, item))
+            raise ReferenceError( """%s instance no longer valid (item %s has been collected)"""%( self.__class__.__name__, item))
         return ref
 
     def __iter__( self ):
@@ -78,13 +79,15 @@ class WeakTuple( tuple ):
 
     def __getitem__( self, index ):
         """Get the item at the given index"""
+        if isinstance( index, slice ):
+            return [
+                self.unwrap(obj)
+                for obj in super (WeakTuple,self).__getitem__( index )
+            ]
         return self.unwrap(super (WeakTuple,self).__getitem__( index ))
     def __getslice__( self, start, stop ):
         """Get the items in the range start to stop"""
-        return [
-            self.unwrap(obj) 
-            for obj in super (WeakTuple,self).__getslice__( start, stop)
-        ]
+        return self[start:stop]
     def __contains__( self, item ):
         """Return boolean indicating whether the item is in the tuple"""
         for node in self:
-- 
2.43.0


From 88a9b6b6e67b7de72187b369569301cd4711be0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:37 +0000
Subject: [PATCH 24/56] fix: slices of node paths are node paths on Python 3

---
 vrml/nodepath.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vrml/nodepath.py b/vrml/nodepath.py
index db38c3f..46ad3d3 100644
--- a/vrml/nodepath.py
+++ b/vrml/nodepath.py
@@ -50,6 +50,12 @@ class NodePath( list ):
     def __getslice__(self, start, stop):
         """Return a new path with our items from start to stop"""
         return self.__class__(super (NodePath, self).__getslice__(start, stop))
+    def __getitem__(self, index):
+        """Return our item at index, or a new path for a slice"""
+        result = super (NodePath, self).__getitem__(index)
+        if isinstance( index, slice ):
+            result = self.__class__(result)
+        return result
     def __eq__( self, other ):
         """Check whether we are equal to another path"""
         if len(self) != len(other):
-- 
2.43.0


From dfbc4742c4673b36f4d2ad5452bd9cbda0deb1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:09 +0000
Subject: [PATCH 25/56] fix: ProtoNamespace can be copied

---
 vrml/csscolors.py      | 8 +++++++-
 vrml/protonamespace.py | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/vrml/csscolors.py b/vrml/csscolors.py
index 7e424c4..391251e 100644
--- a/vrml/csscolors.py
+++ b/vrml/csscolors.py
@@ -7,7 +7,13 @@ def stringToColor( value ):
         return possible
     if value and value[0] == '#':
         # HTML-style #hex encoding
-        possible = int( value[1:],16)
+        digits = value[1:]
+        if len(digits) == 3:
+            # short form, each digit stands for two
+            digits = ''.join([digit*2 for digit in digits])
+        if len(digits) != 6 or digits.strip( '0123456789abcdef' ):
+            raise ValueError( """String %(value)r isn't a #FFFFFF style encoding"""%locals())
+        possible = int( digits,16)
         return toFloat(possible,16),toFloat(possible,8), toFloat(possible,0)
     else:
         raise ValueError( """String %(value)r couldn't be recognised as a color name, or #FFFFFF style encoding"""%locals())
diff --git a/vrml/protonamespace.py b/vrml/protonamespace.py
index 38cd565..f41c477 100644
--- a/vrml/protonamespace.py
+++ b/vrml/protonamespace.py
@@ -9,5 +9,5 @@ class ProtoNamespace( dict ):
         raise AttributeError( '%r object has no %r attribute'%( self.__class__.__name__, key))
     def __copy__( self ):
         """Produce a ProtoNamespace copy of self"""
-        return self.__class__( super(ProtoNamespace,self).__copy__())
+        return self.__class__( self )
     
-- 
2.43.0


From 3be58e2dcba1082b2f781b008c16d932d5c9f6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:54 +0000
Subject: [PATCH 26/56] fix: darkgoldenrod, pink, royalblue, skyblue and
 yellowgreen have their CSS values

---
 vrml/csscolors.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vrml/csscolors.py b/vrml/csscolors.py
index 391251e..5406a98 100644
--- a/vrml/csscolors.py
+++ b/vrml/csscolors.py
@@ -83,10 +83,10 @@ cssColors = {
     'beige' : (0.9608,0.9608,0.8627),
     'lightyellow' : (1.0,1.0,0.8784),
     'lightgoldenrodyellow' : (0.9804,0.9804,0.8235),
-    'darkgoldenrod' : (0.7216,0.7137,0.0431),
+    'darkgoldenrod' : (0.7216,0.5255,0.0431),
     'olive' : (0.502,0.502,0.0),
     'yellow' : (1.0,1.0,0.0),
-    'yellowgreen' : (0.6627,0.8039,0.1961),
+    'yellowgreen' : (0.6039,0.8039,0.1961),
     'olivedrab' : (0.4196,0.5569,0.1373),
     'darkolivegreen' : (0.3333,0.4196,0.1843),
     'greenyellow' : (0.6784,1.0,0.1843),
@@ -124,7 +124,7 @@ cssColors = {
     'powderblue' : (0.6902,0.8784,0.902),
     'lightblue' : (0.6784,0.8471,0.902),
     'deepskyblue' : (0.0,0.749,1.0),
-    'skyblue' : (0.5294,0.8078,0.9294),
+    'skyblue' : (0.5294,0.8078,0.9216),
     'lightskyblue' : (0.5294,0.8078,0.9804),
     'steelblue' : (0.2745,0.5098,0.7059),
     'aliceblue' : (0.9412,0.9725,1.0),
@@ -133,7 +133,7 @@ cssColors = {
     'dodgerblue' : (0.1176,0.5647,1.0),
     'lightsteelblue' : (0.6902,0.7686,0.8706),
     'cornflowerblue' : (0.3922,0.5843,0.9294),
-    'royalblue' : (0.0157,0.0863,0.5647),
+    'royalblue' : (0.2549,0.4118,0.8824),
     'ghostwhite' : (0.9725,0.9725,1.0),
     'lavender' : (0.902,0.902,0.9804),
     'midnightblue' : (0.098,0.098,0.4392),
@@ -163,7 +163,7 @@ cssColors = {
     'hotpink' : (1.0,0.4118,0.7059),
     'lavenderblush' : (1.0,0.9412,0.9608),
     'palevioletred' : (0.8588,0.4392,0.5765),
-    'pink' : (1.0,0.7529,0.8039),
+    'pink' : (1.0,0.7529,0.7961),
     'crimson' : (0.8627,0.0784,0.2353),
     'lightpink' : (1.0,0.7137,0.7569),
 }
-- 
2.43.0


From 139bfe024241f379f99b6cbe8d432957525b735f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:23 +0000
Subject: [PATCH 27/56] fix: initial values in a file are not sent along ROUTEs
 written before them

---
 vrml/vrml97/parseprocessor.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index 0c92c74..08aedb2 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -61,6 +61,7 @@ class ParseProcessor(DispatchProcessor):
         self.basePrototypes = basePrototypes
         self.baseURI = baseURI
         self.sceneGraphStack = []
+        self.routeStack = []
         self.prototypeStack = []
         self.nodeStack = []
         self.fieldTypeStack = []
@@ -96,7 +97,12 @@ class ParseProcessor(DispatchProcessor):
                 baseURI=self.baseURI,
             )
         )
+        self.routeStack.append([])
         dispatchList(self, children, buffer)
+        # initial values are not events, so routes only start working
+        # when every value in the scene has been set
+        for route in self.routeStack.pop():
+            self.sceneGraphStack[-1].addRoute(self.basePrototypes.get('ROUTE')(**route))
         node = self.sceneGraphStack.pop()
         return node
 
@@ -214,7 +220,7 @@ class ParseProcessor(DispatchProcessor):
         return node
 
     def ROUTE(self, table, buffer):
-        '''Create a new route object/node, add the current sceneGraph'''
+        '''Record a new route, which is added to the current sceneGraph when it is complete'''
         (tag, start, stop, sublist) = table
         (s, sf, d, df) = [getString(item, buffer) for item in sublist]
         (sn, dn) = [self.sceneGraphStack[-1].getDEF(name) for name in (s, d)]
@@ -227,8 +233,8 @@ class ParseProcessor(DispatchProcessor):
                         lines(end=start, buffer=buffer),
                     )
                 )
-        self.sceneGraphStack[-1].addRoute(
-            self.basePrototypes.get('ROUTE')(
+        self.routeStack[-1].append(
+            dict(
                 source=sn,
                 sourceField=sf,
                 destination=dn,
-- 
2.43.0


From 7175eb2f12ffa8b47c91597f0c2b7305957b4363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:15 +0000
Subject: [PATCH 28/56] fix: creating a PROTO instance does not rename nodes in
 the outermost scene

---
 vrml/vrml97/parseprocessor.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index 08aedb2..be2efcc 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -132,6 +132,15 @@ class ParseProcessor(DispatchProcessor):
             self.prototypeStack.pop()
 
     ### Node instances of the various types
+    def setRoot(self, newNode):
+        """Set the root of a new node, and of nothing below it
+
+        The nodes below a new node are the defaults of its PROTO, which
+        have a root, and names in the scene that declares the PROTO.
+        """
+        field = node.Node.rootSceneGraph
+        super(node.RootScenegraphNode, field).fset(newNode, self.sceneGraphStack[0])
+
     def Node(self, table, buffer):
         '''Create new node, returning the value to the caller'''
         (tag, start, stop, sublist) = table
@@ -153,7 +162,7 @@ class ParseProcessor(DispatchProcessor):
                 )
             )
         newNode = prototype()
-        root(newNode, self.sceneGraphStack[0])
+        self.setRoot(newNode)
         if name:
             self.sceneGraphStack[-1].regDefName(name, newNode)
         self.nodeStack.append(newNode)
@@ -177,7 +186,7 @@ class ParseProcessor(DispatchProcessor):
         )
         vProto = newNode.__class__
         # register it
-        root(newNode, self.sceneGraphStack[0])
+        self.setRoot(newNode)
         if name:
             self.sceneGraphStack[-1].regDefName(name, newNode)
         self.nodeStack.append(newNode)
-- 
2.43.0


From a46e0402f38fa52d78ac2b1b807a24dc695187fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 29/56] fix: a name is never empty (a file which ends in USE
 parsed)

---
 vrml/vrml97/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/vrml97/parser.py b/vrml/vrml97/parser.py
index b463c09..ec2549a 100644
--- a/vrml/vrml97/parser.py
+++ b/vrml/vrml97/parser.py
@@ -50,7 +50,7 @@ Attr           := name, ts, (('IS',kwend, ts,IS,ts)/Field), ts
 Field          := ( '[',ts,((vector/SFNumber/SFBool/SFString/('USE',kwend,ts,USE,ts)/Script/Node),ts)*, ']'!, ts )/((SFNumber/SFBool/SFNull/SFString/('USE',kwend,ts,USE,ts)/Script/Node),ts)+
 
 vector         := '[',ts,((vector/SFNumber),ts)*,']'
-name           := -[][0-9{}\000-\020"'#,.\\ ],  -[][{}\000-\020"'#,.\\ ]*
+name           := ?-[][0-9{}\000-\020"'#,.\\ ],  -[][{}\000-\020"'#,.\\ ]+
 SFNumber       := [-+]*, ( ('0',[xX],[0-9A-Fa-f]+) / ([0-9.]+,([eE],[-+0-9.]+)?))
 SFBool         := ('TRUE'/'FALSE'),kwend
 SFString       := '"',(CHARNODBLQUOTE/ESCAPEDCHAR/SIMPLEBACKSLASH)*,'"'!
-- 
2.43.0


From 7e86e27e6ab9c6cdb40da5ca8b5e266b9ed6cc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 30/56] fix: brackets around the URLs of an EXTERNPROTO must
 match

---
 vrml/vrml97/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/vrml97/parser.py b/vrml/vrml97/parser.py
index ec2549a..a278775 100644
--- a/vrml/vrml97/parser.py
+++ b/vrml/vrml97/parser.py
@@ -30,7 +30,7 @@ eventDecl      := eventDirection, ts, !,dataType, ts, name, ts
 eventDirection := ('eventIn'/'eventOut'),kwend
 ExternProto    := 'EXTERNPROTO',kwend,ts,!,nodegi,ts,'[',ts,(extFieldDecl/eventDecl)*,']', ts, ExtProtoURL
 extFieldDecl   := fieldExposure,ts,!,dataType,ts,name,ts
-ExtProtoURL    := '['?,(ts,SFString)*, ts, ']'?, ts  # just an MFString by another name :)
+ExtProtoURL    := (('[',(ts,SFString)*,ts,']'!)/(ts,SFString)+), ts  # just an MFString by another name :)
 
 ROUTE          := 'ROUTE',kwend,ts, !,name,'.',name, ts, 'TO',kwend, ts, name,'.',name, ts
 
-- 
2.43.0


From ceac35cadba5d32ff4bbccd437739f48737c7fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:26 +0000
Subject: [PATCH 31/56] fix: errors in files with characters outside of the BMP
 are reported (the line count never ended)

---
 vrml/vrml97/parseprocessor.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index be2efcc..6c34506 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -19,6 +19,16 @@ def getString(*args, **named):
     return as_str(base)
 
 
+def lines(end, buffer):
+    """Line number of the given position in buffer
+
+    (simpleparse's own function never ends if there are characters
+    outside of the basic multilingual plane before the position)
+    """
+    head = as_str(buffer[:end])
+    return 1 + head.count('\n') + head.count('\r') - head.count('\r\n')
+
+
 def asInt(text):
     """Convert a VRML97 integer (decimal, or hexadecimal with 0x) to an int
 
-- 
2.43.0


From d59fd1203e05edd2960fb1cf832cb9885cdfb799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 32/56] fix: PROTO and Script field defaults of the wrong size
 are refused when they are parsed

---
 vrml/vrml97/parseprocessor.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index 6c34506..101611d 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -268,15 +268,16 @@ class ParseProcessor(DispatchProcessor):
         self.fieldTypeStack.append(datatype)
         try:
             value = dispatch(self, value, buffer)
-            addField(
-                self.prototypeStack[-1],
-                field.newField(
-                    getString(name, buffer),
-                    datatype,
-                    getString(exposure, buffer) == 'exposedField',
-                    value,
-                ),
+            fieldObject = field.newField(
+                getString(name, buffer),
+                datatype,
+                getString(exposure, buffer) == 'exposedField',
+                value,
             )
+            # a default which is not a value of the type is an error here,
+            # not where the default is used
+            fieldObject.coerce(value)
+            addField(self.prototypeStack[-1], fieldObject)
         finally:
             self.fieldTypeStack.pop()
 
@@ -340,6 +341,7 @@ class ParseProcessor(DispatchProcessor):
                     getString(exposure, buffer) == 'exposedField',
                     value,
                 )
+                fieldObject.coerce(value)
             return (fieldObject, mapName)
         finally:
             self.fieldTypeStack.pop()
-- 
2.43.0


From 317faf9981f244207e3d028d4c4f7b7f20044881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:49 +0000
Subject: [PATCH 33/56] fix: initial values of PROTO instances are not sent
 along ROUTEs in the PROTO body

---
 vrml/node.py                  | 27 ++++++++++++++++++++++++---
 vrml/vrml97/parseprocessor.py |  6 +-----
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/vrml/node.py b/vrml/node.py
index acc5e0e..4723d19 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -204,11 +204,10 @@ class PrototypedNode(object):
                 destination = copier.use(destination) or destination
                 if hasattr(sourceField, 'getDefault'):
                     try:
-                        getField(destination, destinationField).fset(
+                        setInitialValue(
                             destination,
+                            getField(destination, destinationField),
                             sourceField.getDefault(),
-                            # a prototyped node maps the value in its turn
-                            notify=isinstance(destination, PrototypedNode),
                         )
                     except AttributeError:
                         pass
@@ -233,6 +232,28 @@ class PrototypedNode(object):
             return PrototypedNode.scenegraph.fget(self).children
 
 
+def setInitialValue(client, f, value):
+    """Set a value for a field of a node which is being built
+
+    A prototyped node sets the fields its field IS-maps to as well.  Initial
+    values are not events, nothing is sent along the ROUTEs of a PROTO body.
+    """
+    if isinstance(f, _MFNode):
+        # a list of its own, changing the contents of a list is an event
+        client.__dict__.pop(f.name, None)
+    value = f.fset(client, value, notify=0)
+    if isinstance(client, PrototypedNode):
+        from vrml import route
+
+        for r in PrototypedNode.scenegraph.fget(client).routes:
+            if isinstance(r, route.IS) and r.source is client:
+                if getField(client, r.sourceField) is f:
+                    destinationField = getField(r.destination, r.destinationField)
+                    if isinstance(destinationField, field.Field):
+                        setInitialValue(r.destination, destinationField, value)
+    return value
+
+
 def prototype(
     name,
     fields=(),
diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index 101611d..28592c7 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -371,11 +371,7 @@ class ParseProcessor(DispatchProcessor):
             self.fieldTypeStack.append(field.typeName())
             try:
                 value = dispatch(self, value, buffer)
-                if isinstance(clientNode, node.PrototypedNode):
-                    # prototyped nodes get IS-value updates
-                    field.fset(clientNode, value, notify=1)
-                else:
-                    field.fset(clientNode, value, notify=0)
+                node.setInitialValue(clientNode, field, value)
             finally:
                 self.fieldTypeStack.pop()
 
-- 
2.43.0


From 4256dcff82230e9a4b1fc8513f10b5e54a0d8adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:13 +0000
Subject: [PATCH 34/56] fix: nodes in the fields of a Script in a PROTO body
 are copied for each instance

---
 vrml/vrml97/script.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vrml/vrml97/script.py b/vrml/vrml97/script.py
index 4a00ead..9ff7a0d 100644
--- a/vrml/vrml97/script.py
+++ b/vrml/vrml97/script.py
@@ -1,5 +1,5 @@
 """VRML97 Script-node stub"""
-from vrml import node, fieldtypes
+from vrml import node, fieldtypes, protofunctions
 from vrml.vrml97 import nodetypes
 
 class _Script( nodetypes.Children, node.Node ):
@@ -18,6 +18,16 @@ class _Script( nodetypes.Children, node.Node ):
     mustEvaluate = fieldtypes.SFBool(
         'mustEvaluate', default = 0,
     )
+    def copy( self, copier=None ):
+        """Copy this node for copier, with the nodes its interface declares
+
+        A script's fields are declared together with their values, those are
+        defaults of the class, which the copy shares.
+        """
+        for field in protofunctions.getFields( self ):
+            if isinstance( field, (node.SFNode, node.MFNode) ):
+                field.__get__( self )
+        return super( _Script, self ).copy( copier )
     
 def Script( fields, **namedarguments ):
     """Create a new script prototype and an instance of that prototype"""
-- 
2.43.0


From 97093de0cf81ff019e45c01fc5f68a6a2d132c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:42 +0000
Subject: [PATCH 35/56] fix: array values are stored contiguous whatever the
 memory order of the array assigned

---
 vrml/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/arrays.py b/vrml/arrays.py
index 0cbf8ac..902778a 100644
--- a/vrml/arrays.py
+++ b/vrml/arrays.py
@@ -83,4 +83,4 @@ def safeCompare(first, second):
 
 def contiguous(a):
     """Force to a contiguous array"""
-    return array(a, typeCode(a))
+    return array(a, typeCode(a), order='C')
-- 
2.43.0


From c6109608f94b9f5186dd2ca7ceccec5a58e9f0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:35 +0000
Subject: [PATCH 36/56] fix: lists of colours from map and zip objects are not
 read twice (wrong counts gave an empty list)

---
 vrml/fieldtypes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index 1a1a4a3..2c7f058 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -851,6 +851,9 @@ class _MFColor(_Color, _MFVec3f):
 
     def coerce(self, value):
         """Adds string coercion for color data types"""
+        if field.UNPACK_TYPES and isinstance(value, field.UNPACK_TYPES):
+            # may have to be iterated a second time
+            value = list(value)
         try:
             return super(_MFColor, self).coerce(value)
         except (ValueError, TypeError) as err:
-- 
2.43.0


From 431684c42272fcd4186d44c94367d303d774a71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 37/56] fix: +, *, reversed and copy of weak lists and tuples
 give objects (paths were joined with weak references in them)

---
 vrml/nodepath.py  |  5 +++++
 vrml/weaklist.py  | 24 ++++++++++++++++++++++++
 vrml/weaktuple.py |  2 ++
 3 files changed, 31 insertions(+)

diff --git a/vrml/nodepath.py b/vrml/nodepath.py
index 46ad3d3..0023b9e 100644
--- a/vrml/nodepath.py
+++ b/vrml/nodepath.py
@@ -46,6 +46,8 @@ class NodePath( list ):
         """Return a new path with other as tail"""
         if isinstance( other, node.Node ):
             other = [other]
+        elif isinstance( other, weaklist.WeakList ):
+            other = other.get()
         return self.__class__( super(NodePath, self).__add__( other))
     def __getslice__(self, start, stop):
         """Return a new path with our items from start to stop"""
@@ -64,6 +66,9 @@ class NodePath( list ):
             if self [index] is not other [index]:
                 return 0
         return 1
+    def __ne__( self, other ):
+        """Check whether we are different from another path"""
+        return not self == other
 
 class WeakNodePath( NodePath, weaklist.WeakList ):
     """Node path that uses weak-references to nodes
diff --git a/vrml/weaklist.py b/vrml/weaklist.py
index 50fd4bd..75f1e83 100644
--- a/vrml/weaklist.py
+++ b/vrml/weaklist.py
@@ -88,6 +88,30 @@ class WeakList( list ):
         """Extend this list in-place with another sequence"""
         self.extend( sequence )
         return self
+    def __add__( self, other ):
+        """Return a (strong) list of our items and those of other"""
+        if not isinstance( other, list ):
+            return NotImplemented
+        return self.get() + list( other )
+    def __radd__( self, other ):
+        """Return a (strong) list of the items of other and our items"""
+        if not isinstance( other, list ):
+            return NotImplemented
+        return list( other ) + self.get()
+    def __mul__( self, count ):
+        """Return a (strong) list of our items repeated count times"""
+        return self.get() * count
+    __rmul__ = __mul__
+    def __imul__( self, count ):
+        """Repeat our items count times in-place (each with its own reference)"""
+        self[:] = self.get() * count
+        return self
+    def __reversed__( self ):
+        """Iterate over the items from the last to the first"""
+        return reversed( self.get() )
+    def copy( self ):
+        """Return a (strong) list of our items"""
+        return self.get()
 
     def __getitem__( self, index ):
         """Get the item at the given index"""
diff --git a/vrml/weaktuple.py b/vrml/weaktuple.py
index ebf98d9..02120f3 100644
--- a/vrml/weaktuple.py
+++ b/vrml/weaktuple.py
@@ -112,6 +112,8 @@ class WeakTuple( tuple ):
 
     def __add__(self, other):
         """Return a new path with other as tail"""
+        if isinstance( other, WeakTuple ):
+            other = tuple( other )
         return tuple(self) + other
     
     def __eq__( self, sequence ):
-- 
2.43.0


From baee47a316c3ca237c41b0dae6b34fa7d51eb215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:15 +0000
Subject: [PATCH 38/56] fix: WeakKeyDictionary has a length and can be iterated
 on Python 3

---
 vrml/weakkeydictfix.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/vrml/weakkeydictfix.py b/vrml/weakkeydictfix.py
index a7341ae..7dd06d5 100644
--- a/vrml/weakkeydictfix.py
+++ b/vrml/weakkeydictfix.py
@@ -16,21 +16,10 @@ class WeakKeyDictionary( weakref.WeakKeyDictionary ):
         dict -- previously-existing weak key records or
             None to create a new dictionary
         """
-        self.data = {}
-        def remove(k, selfref=ref(self)):
-            self = selfref()
-            if self is not None and self.data:
-                try:
-                    v = self.data.get( k )
-                    del self.data[k]
-                except (KeyError,RuntimeError):
-                    pass
-            # now v goes out of scope and is deleted...
-        self._remove = remove
-        if dict is not None: self.update(dict)
+        super( WeakKeyDictionary, self).__init__( dict )
     def __delitem__(self, key):
         """Overridden delitem to avoid scanning"""
         try:
-            del self.data[weakref.ref(key)]
+            super( WeakKeyDictionary, self).__delitem__( key )
         except KeyError:
             raise KeyError( """Item %r does not appear as a key"""%( key,))
\ No newline at end of file
-- 
2.43.0


From c28d52b814287fcabe3b2838329a4e6bb9eeed12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 39/56] fix: attributes of weak fields hold and give nodes as
 fset and fget do

Only fset and fget used the weak references: assigning to the attribute kept
the node alive, and reading it gave the weak reference.
---
 vrml/field.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/vrml/field.py b/vrml/field.py
index b92ab0d..40f38c6 100644
--- a/vrml/field.py
+++ b/vrml/field.py
@@ -342,6 +342,16 @@ class Field(BaseField):
 class WeakField(object):
     """A Mix-in for fields which stores weak-references to values"""
 
+    def __get__(self, client, cls=None):
+        """Retrieve value for given instance (or self for cls)"""
+        if client is None:
+            return self
+        return self.fget(client)
+
+    def __set__(self, client, value):
+        """Set value for given instance"""
+        self.fset(client, value)
+
     def fset(self, client, value, notify=1):
         """Set the client's value for this property
 
-- 
2.43.0


From 26d9dbed22b12cb04e6737a6070145372301960f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 40/56] fix: a weak field which holds no node can be set to no
 node (AttributeError)

---
 vrml/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/field.py b/vrml/field.py
index 40f38c6..74770e1 100644
--- a/vrml/field.py
+++ b/vrml/field.py
@@ -360,7 +360,7 @@ class WeakField(object):
         if isinstance(value, weakref.ReferenceType):
             value = value()
         if not value:
-            if not isinstance(client, type):
+            if not isinstance(client, type) and self.fhas(client):
                 self.fdel(client, notify=notify)
             return None
         value = weakref.ref(value)
-- 
2.43.0


From 3dccb591a5b7a386c4da570bc67cc9166715cd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 41/56] fix: str() of a named node gives its DEF name (it
 looked for it under the wrong name)

---
 vrml/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/node.py b/vrml/node.py
index 4723d19..4912266 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -84,7 +84,7 @@ class Node(object):
 
     def __str__(self):
         """Get a friendly representation of the Node"""
-        if 'DEF' in self.__dict__ and defName(self):
+        if self.__dict__.get(Node.DEF.name):
             return """%s( DEF=%r @0x%X )""" % (
                 self.__class__.__name__,
                 defName(self),
-- 
2.43.0


From 0f76d4b8d573435dba025135c2ff0675b5832ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:02 +0000
Subject: [PATCH 42/56] fix: the scenegraph and externproto URL of a prototype
 can be deleted

fdel on a class tried to pop from its (read-only) dictionary.
---
 accelerate/src/fieldaccel2.pyx | 6 +++++-
 vrml/field.py                  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/accelerate/src/fieldaccel2.pyx b/accelerate/src/fieldaccel2.pyx
index 555fce8..8f8d14c 100644
--- a/accelerate/src/fieldaccel2.pyx
+++ b/accelerate/src/fieldaccel2.pyx
@@ -64,7 +64,11 @@ cdef class BaseField( object ):
     cdef _del(self, client, int notify):
         """Delete the value, with notifications"""
         try:
-            value = client.__dict__.pop( self.name )
+            if isinstance( client, type ):
+                value = client.__dict__[self.name]
+                delattr( client, self.name )
+            else:
+                value = client.__dict__.pop( self.name )
         except KeyError as err:
             raise AttributeError( self.name )
         if notify:
diff --git a/vrml/field.py b/vrml/field.py
index 74770e1..46c8607 100644
--- a/vrml/field.py
+++ b/vrml/field.py
@@ -173,7 +173,11 @@ else:
         def fdel(self, client, notify=True):
             """Delete with option to notify"""
             try:
-                value = client.__dict__.pop(self.name)
+                if isinstance(client, type):
+                    value = client.__dict__[self.name]
+                    delattr(client, self.name)
+                else:
+                    value = client.__dict__.pop(self.name)
             except KeyError:
                 raise AttributeError(self.name)
             if notify:
-- 
2.43.0


From e72e70b2f20c028acda739548e026f7d267888f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:55 +0000
Subject: [PATCH 43/56] fix: cache holders are not kept in reference cycles by
 their own callbacks (collected while a signal was sent, they kept other
 holders from being cleared)

---
 vrml/cache.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/vrml/cache.py b/vrml/cache.py
index 56d04be..c7f14c8 100644
--- a/vrml/cache.py
+++ b/vrml/cache.py
@@ -89,10 +89,15 @@ CACHE = Cache()
 getData = CACHE.getData
 
 def cleaner( cache, id ):
-    """Return callback function that cleans the given id from cache"""
+    """Return callback function that cleans the given id from cache
+
+    The function has only a weak reference to the cache, which has a
+    reference to it, so that a cache is gone when it is dropped.
+    """
+    cache = weakref.ref( cache )
     def clean_id( weak ):
         try:
-            del cache[id]
+            del cache()[id]
         except Exception:
             pass 
     return clean_id
@@ -194,11 +199,21 @@ class CacheHolder( object ):
             sender,
         )
     def depend_object( self, node ):
-        """Depend on node's existence"""
+        """Depend on node's existence
+
+        As with the cleaner, the callback has only a weak reference to
+        this holder.  Collected in the midst of sending a signal, dead
+        holders can keep others from getting it.
+        """
+        holder = weakref.ref( self )
+        def node_died( weak ):
+            current = holder()
+            if current is not None:
+                current( weak )
         self.nodeDependencies.append(
             weakref.ref(
                 node,
-                self,
+                node_died,
             )
         )
     def clear( self, signal=None, sender=None ):
-- 
2.43.0


From 7dabd03407717d346b45120566e6a6ee4f1fbed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:58 +0000
Subject: [PATCH 44/56] fix: a ShaderGeometry without an appearance has the
 NULL appearance (its default was no value of the type, so reading, writing
 and copying such nodes failed)

---
 vrml/vrml97/shaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/vrml97/shaders.py b/vrml/vrml97/shaders.py
index 225daa7..50ab4bb 100644
--- a/vrml/vrml97/shaders.py
+++ b/vrml/vrml97/shaders.py
@@ -23,7 +23,7 @@ class ShaderGeometry( nodetypes.Children, nodetypes.Rendering, node.Node ):
     attributes = field.newField( 'attributes','MFNode',1,list )
     slices = field.newField( 'slices', 'MFNode',1,list )
     uniforms = field.newField( 'uniforms','MFNode',1,list )
-    appearance = field.newField( 'appearance', 'SFNode',1,list )
+    appearance = field.newField( 'appearance', 'SFNode',1,node.NULL )
 
 class ShaderSlice( node.Node ):
     """Segment of a shader geometry element to render"""
-- 
2.43.0


From fddb9042532594d66892ba5b9c799b6b6311d84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:59 +0000
Subject: [PATCH 45/56] fix: values of every registered field type can be read,
 and are read as they were written (SFUInt32, SFArray32, 4-vectors, double
 vectors and matrices had no reader; SFArray was read in single precision and
 written abbreviated)

---
 vrml/fieldtypes.py            | 15 +++++++++++++--
 vrml/vrml97/parseprocessor.py | 10 ++++++++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index 2c7f058..7c1f1af 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -553,7 +553,7 @@ class _SFVec(object):
     def vrmlstr(self, value, lineariser=None):
         """Convert the given value to a VRML97 representation"""
         return _linvalues(lineariser)['numsep'].join(
-            [SFFloat_vrmlstr(obj, lineariser) for obj in value]
+            [SFFloat_vrmlstr(obj, lineariser) for obj in arrays.ravel(value)]
         )
 
     def copyValue(self, value, copier=None):
@@ -636,7 +636,18 @@ class _SFArray(object):
 
     def vrmlstr(self, value, lineariser=None):
         """Convert the given value to a VRML97 representation"""
-        return str(value)
+        if arrays.typeCode(value) == 'V':
+            return str(value)
+        numsep = _linvalues(lineariser)['numsep']
+
+        def vector(items):
+            if len(arrays.shape(items)) > 1:
+                return '[%s]' % (numsep.join([vector(item) for item in items]))
+            return '[%s]' % (
+                numsep.join([SFFloat_vrmlstr(item, lineariser) for item in items])
+            )
+
+        return vector(value)
 
     def copyValue(self, value, copier=None):
         """Copy a value for copier"""
diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index 28592c7..f857db4 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -423,13 +423,15 @@ class ParseProcessor(DispatchProcessor):
         (tup,) = table
         return asInt(getString(tup, buffer))
 
+    SFUInt32 = SFInt32
+
     def SFVec3f(self, table, buffer):
         return [float(getString(item, buffer)) for item in table]
 
     def SFVec2f(self, table, buffer):
         return [float(getString(item, buffer)) for item in table]
 
-    SFColor = SFVec3f
+    SFColor = SFVec4f = SFVec2d = SFVec3d = SFVec4d = SFVec3f
 
     def SFRotation(self, table, buffer):
         return [float(getString(item, buffer)) for item in table]
@@ -443,9 +445,11 @@ class ParseProcessor(DispatchProcessor):
             else:
                 result.append(float(buffer[start:stop]))
         if final:
-            result = array(result, 'f')
+            result = array(result, 'd')
         return result
 
+    SFArray32 = SFArray
+
     def MFInt32(self, tuples, buffer):
         # localisation
         if not tuples:
@@ -462,6 +466,8 @@ class ParseProcessor(DispatchProcessor):
         return [float(buffer[start:stop]) for (tag, start, stop, children) in tuples]
 
     MFColor = MFRotation = MFVec2f = MFVec3f = MFTime = MFFloat32 = MFFloat
+    MFVec4f = MFVec2d = MFVec3d = MFVec4d = MFFloat
+    MFMatrix3f = MFMatrix4f = MFMatrix3d = MFMatrix4d = MFFloat
 
     def MFString(self, tuples, buffer):
         bigresult = []
-- 
2.43.0


From 095213571693142e47e6775e55a7ecdd6d5ef114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:17 +0000
Subject: [PATCH 46/56] fix: the SFMatrix field types are registered, as the
 MFMatrix ones are

---
 vrml/fieldtypes.py            | 8 ++++++++
 vrml/vrml97/parseprocessor.py | 1 +
 2 files changed, 9 insertions(+)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index 7c1f1af..ceefebc 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -1440,6 +1440,10 @@ field.register(MFVec3d)
 field.register(MFVec4d)
 field.register(MFMatrix3d)
 field.register(MFMatrix4d)
+field.register(SFMatrix3f)
+field.register(SFMatrix4f)
+field.register(SFMatrix3d)
+field.register(SFMatrix4d)
 
 ## event classes...
 field.register(MFFloatEvt)
@@ -1477,6 +1481,10 @@ field.register(MFVec3dEvt)
 field.register(MFVec4dEvt)
 field.register(MFMatrix3dEvt)
 field.register(MFMatrix4dEvt)
+field.register(SFMatrix3fEvt)
+field.register(SFMatrix4fEvt)
+field.register(SFMatrix3dEvt)
+field.register(SFMatrix4dEvt)
 
 if __name__ == "__main__":
     import unittest
diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index f857db4..cb07270 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -432,6 +432,7 @@ class ParseProcessor(DispatchProcessor):
         return [float(getString(item, buffer)) for item in table]
 
     SFColor = SFVec4f = SFVec2d = SFVec3d = SFVec4d = SFVec3f
+    SFMatrix3f = SFMatrix4f = SFMatrix3d = SFMatrix4d = SFVec3f
 
     def SFRotation(self, table, buffer):
         return [float(getString(item, buffer)) for item in table]
-- 
2.43.0


From 5f9f207b4209e9c97e3280e3ee4859d2705e2748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:24 +0000
Subject: [PATCH 47/56] fix: a namespace of prototypes given to a
 ParseProcessor is not changed by the scenes read with it (their PROTOs were
 added to it, and replaced its own), and sceneGraph.protoTypes of a read scene
 is a ProtoNamespace

---
 vrml/protonamespace.py        | 1 +
 vrml/vrml97/parseprocessor.py | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrml/protonamespace.py b/vrml/protonamespace.py
index f41c477..101f9d7 100644
--- a/vrml/protonamespace.py
+++ b/vrml/protonamespace.py
@@ -10,4 +10,5 @@ class ProtoNamespace( dict ):
     def __copy__( self ):
         """Produce a ProtoNamespace copy of self"""
         return self.__class__( self )
+    copy = __copy__
     
diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index cb07270..b633b1f 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -99,7 +99,8 @@ class ParseProcessor(DispatchProcessor):
             protoTypes = None
         else:
             root = None
-            protoTypes = self.basePrototypes
+            # the PROTOs of the scene are not added to the namespace given
+            protoTypes = self.basePrototypes.copy()
         self.sceneGraphStack.append(
             self.basePrototypes.get('sceneGraph')(
                 root=root,
-- 
2.43.0


From d6c67a5ac3760e9fd968db107c6e1d2493b991cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:00 +0000
Subject: [PATCH 48/56] fix: a ParseProcessor can read further scenes after one
 which was refused (what it was in the middle of stayed on its stacks, so that
 the next scene became part of it)

---
 vrml/vrml97/parseprocessor.py | 61 ++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 26 deletions(-)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index b633b1f..436b9fe 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -109,12 +109,17 @@ class ParseProcessor(DispatchProcessor):
             )
         )
         self.routeStack.append([])
-        dispatchList(self, children, buffer)
-        # initial values are not events, so routes only start working
-        # when every value in the scene has been set
-        for route in self.routeStack.pop():
-            self.sceneGraphStack[-1].addRoute(self.basePrototypes.get('ROUTE')(**route))
-        node = self.sceneGraphStack.pop()
+        try:
+            dispatchList(self, children, buffer)
+            # initial values are not events, so routes only start working
+            # when every value in the scene has been set
+            for route in self.routeStack[-1]:
+                self.sceneGraphStack[-1].addRoute(
+                    self.basePrototypes.get('ROUTE')(**route)
+                )
+        finally:
+            self.routeStack.pop()
+            node = self.sceneGraphStack.pop()
         return node
 
     ### The two prototype sub-types
@@ -177,8 +182,10 @@ class ParseProcessor(DispatchProcessor):
         if name:
             self.sceneGraphStack[-1].regDefName(name, newNode)
         self.nodeStack.append(newNode)
-        dispatchList(self, rest, buffer)
-        self.nodeStack.pop()
+        try:
+            dispatchList(self, rest, buffer)
+        finally:
+            self.nodeStack.pop()
         return newNode
 
     def Script(self, table, buffer):
@@ -201,24 +208,26 @@ class ParseProcessor(DispatchProcessor):
         if name:
             self.sceneGraphStack[-1].regDefName(name, newNode)
         self.nodeStack.append(newNode)
-        # now get the field-declarations...
-        fields, attributes, isMaps = [], [], []
-        for item in rest:
-            if item[0] in ("ScriptEventDecl", "ScriptFieldDecl"):
-                f, mapName = dispatch(self, item, buffer)
-                setattr(vProto, f.name, f)
-                if mapName is not None:
-                    isMaps.append((mapName, f.name))
-            elif item[0] == 'Attr':
-                attributes.append(item)
-            else:
-                dispatch(self, item, buffer)
-        if isMaps:
-            set = node.ismaps(self.prototypeStack[-1])
-            for name, field in isMaps:
-                set.setdefault(name, []).append((newNode, field))
-        dispatchList(self, attributes, buffer)
-        self.nodeStack.pop()
+        try:
+            # now get the field-declarations...
+            fields, attributes, isMaps = [], [], []
+            for item in rest:
+                if item[0] in ("ScriptEventDecl", "ScriptFieldDecl"):
+                    f, mapName = dispatch(self, item, buffer)
+                    setattr(vProto, f.name, f)
+                    if mapName is not None:
+                        isMaps.append((mapName, f.name))
+                elif item[0] == 'Attr':
+                    attributes.append(item)
+                else:
+                    dispatch(self, item, buffer)
+            if isMaps:
+                set = node.ismaps(self.prototypeStack[-1])
+                for name, field in isMaps:
+                    set.setdefault(name, []).append((newNode, field))
+            dispatchList(self, attributes, buffer)
+        finally:
+            self.nodeStack.pop()
         return newNode
 
     def SFNull(self, tup, buffer):
-- 
2.43.0


From 7470a3754a40e11497ca80c8955ef9712cce7a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 49/56] fix: the events of an exposed field whose own name
 starts with set_ or ends with _changed are found

---
 vrml/protofunctions.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vrml/protofunctions.py b/vrml/protofunctions.py
index 6f495a6..bd6258a 100644
--- a/vrml/protofunctions.py
+++ b/vrml/protofunctions.py
@@ -134,8 +134,13 @@ def getField(cls, field):
         for fieldObject in getFields(cls, 1):
             if fieldObject.name == field:
                 return fieldObject
-        # OK, may be one of the "component" events
-        # of a field...
+        # OK, may be one of the "component" events of a field (whose
+        # own name may start with set_, or end with _changed)
+        names = [f.name for f in getFields(cls) + getFields(cls, 1)]
+        if field.startswith("set_") and field[4:] in names:
+            return getField(cls, field[4:])
+        elif field.endswith("_changed") and field[:-8] in names:
+            return getField(cls, field[:-8])
         if field.startswith("set_"):
             return getField(cls, field[4:])
         elif field.endswith("_changed"):
-- 
2.43.0


From c6cbf40ee22c662c8899d3b29224e257d6bc3983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:22 +0000
Subject: [PATCH 50/56] fix: a Transform's matrices follow the defaults of its
 class (fields never set were taken as those of the identity, also in
 subclasses with defaults of their own)

---
 vrml/vrml97/basenodes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vrml/vrml97/basenodes.py b/vrml/vrml97/basenodes.py
index fc8b84b..14cbd7b 100644
--- a/vrml/vrml97/basenodes.py
+++ b/vrml/vrml97/basenodes.py
@@ -603,9 +603,8 @@ class Transform( nodetypes.Children, nodetypes.Transforming, node.Node ):
                 fields.append( 'scaleOrientation' )
             if rotate:
                 fields.append( 'rotation' )
-            d = self.__dict__
             forward,inverse = transformmatrix.localMatrices(
-                **dict([(k,d.get(k)) for k in fields] )
+                **dict([(k,getattr(self,k)) for k in fields] )
             )
             if doConnect:
                 for k in fields:
-- 
2.43.0


From f86fe614b2068ad75af8af4ac555e2a8d965ef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:05 +0000
Subject: [PATCH 51/56] fix: an OList tells its children apart by identity
 (removing, or replacing in a slice, one of several equal children reported
 the wrong one or none)

---
 vrml/olist.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/vrml/olist.py b/vrml/olist.py
index b7cc8ec..4014688 100644
--- a/vrml/olist.py
+++ b/vrml/olist.py
@@ -74,9 +74,8 @@ class OList( list ):
         return value
     def remove( self, item ):
         """Remove this instance from the list"""
-        super(OList,self).remove( item )
-        self._sendRemoved( item )
-        return item
+        # the item removed may be another one which is equal
+        return self.__delitem__( self.index( item ) )
     def __delitem__( self, index ):
         """Delete a single item"""
         if isinstance( index, slice ):
@@ -97,16 +96,17 @@ class OList( list ):
         if isinstance( index, slice ):
             values = list(value)
             previous = self.__getitem__( index )
-            currents = set( previous )
+            # children are told apart by identity: equal ones are not the same
+            currents = set( [id(current) for current in previous] )
             super(OList,self).__setitem__( index, values )
             for value in values:
-                if value not in currents:
+                if id(value) not in currents:
                     self._sendAdded( value )
                 else:
-                    try:
-                        previous.remove( value )
-                    except ValueError as err:
-                        pass
+                    for i,current in enumerate( previous ):
+                        if current is value:
+                            del previous[i]
+                            break
             for current in previous:
                 self._sendRemoved( current )
             return values 
-- 
2.43.0


From 6245b27bf1fa030413ed9c0ea6ce8e7a2c98a2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:41 +0000
Subject: [PATCH 52/56] fix: a list of nodes replaced after its field was
 deleted, or given to a prototyped node, sends each change once (the watcher
 of the list before it was kept)

---
 vrml/node.py | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/vrml/node.py b/vrml/node.py
index 4912266..3a18da9 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -240,7 +240,7 @@ def setInitialValue(client, f, value):
     """
     if isinstance(f, _MFNode):
         # a list of its own, changing the contents of a list is an event
-        client.__dict__.pop(f.name, None)
+        f._unwatchList(client, client.__dict__.pop(f.name, None))
     value = f.fset(client, value, notify=0)
     if isinstance(client, PrototypedNode):
         from vrml import route
@@ -549,7 +549,7 @@ class _MFNode(object):
         values, but for now...
         """
         value.setSender(client, field=self)
-        cs = _changeSender(weakref.ref(client), self)
+        cs = value.changeSender = _changeSender(weakref.ref(client), self)
         for signal in (olist.OList.DEL_CHILD_EVT, olist.OList.NEW_CHILD_EVT):
             dispatcher.connect(
                 cs,
@@ -558,6 +558,23 @@ class _MFNode(object):
                 weak=False,  # don't weakref receiver so it will hang around...
             )
 
+    def _unwatchList(self, client, value):
+        """Undo _watchList, value is no longer the field's value"""
+        cs = getattr(value, 'changeSender', None)
+        if cs is not None:
+            value.changeSender = None
+            value.setSender(None)
+            for signal in (olist.OList.DEL_CHILD_EVT, olist.OList.NEW_CHILD_EVT):
+                try:
+                    dispatcher.disconnect(
+                        cs,
+                        sender=client,
+                        signal=signal,
+                        weak=False,
+                    )
+                except KeyError:
+                    pass
+
     def coerce(self, value):
         """Coerce value to an MFNode list-of-objects"""
         SF = self.__class__.baseSFNode
@@ -601,6 +618,20 @@ class MFNode(_MFNode, field.Field):
         """Set value for given instance"""
         self.fset(client, value)
 
+    def __delete__(self, client):
+        """Delete value for given instance"""
+        if client is not None:
+            self.fdel(client)
+
+    def fdel(self, client, notify=True):
+        """Delete with option to notify, the list deleted is no longer watched"""
+        value = client.__dict__.get(self.name)
+        try:
+            return super(MFNode, self).fdel(client, notify)
+        finally:
+            if client.__dict__.get(self.name) is not value:
+                self._unwatchList(client, value)
+
     def getDefault(self, client=None):
         """Get the default value, watching the list stored for client"""
         value = super(MFNode, self).getDefault(client)
-- 
2.43.0


From 5a9e103dc6cfffab592361bddb2bf4decbecbc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:45 +0000
Subject: [PATCH 53/56] fix: a matrix whose computation was broken off by an
 exception is not left in the cache without its dependencies (it was never
 computed anew)

---
 vrml/vrml97/basenodes.py | 12 +++++++++---
 vrml/vrml97/nodepath.py  | 15 +++++++++++----
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/vrml/vrml97/basenodes.py b/vrml/vrml97/basenodes.py
index 14cbd7b..0e5f5c7 100644
--- a/vrml/vrml97/basenodes.py
+++ b/vrml/vrml97/basenodes.py
@@ -586,7 +586,6 @@ class Transform( nodetypes.Children, nodetypes.Transforming, node.Node ):
         holder = cache.CACHE.getHolder( self, key=key )
         if holder is None:
             doConnect = True 
-            holder = cache.CACHE.holder( self, None, key=key )
             mHolder = None
         else:
             doConnect = False
@@ -607,8 +606,15 @@ class Transform( nodetypes.Children, nodetypes.Transforming, node.Node ):
                 **dict([(k,getattr(self,k)) for k in fields] )
             )
             if doConnect:
-                for k in fields:
-                    holder.depend( self, k )
+                try:
+                    holder = cache.CACHE.holder( self, None, key=key )
+                    for k in fields:
+                        holder.depend( self, k )
+                except:
+                    # not to be found with only some of its dependencies
+                    if holder is not None:
+                        holder()
+                    raise
             holder.data = (forward,inverse)
         return holder
 
diff --git a/vrml/vrml97/nodepath.py b/vrml/vrml97/nodepath.py
index d139b36..e8f842d 100644
--- a/vrml/vrml97/nodepath.py
+++ b/vrml/vrml97/nodepath.py
@@ -56,7 +56,6 @@ class _NodePath( object ):
         holder = CACHE.getHolder( self, key=key )
         if holder is None:
             doConnect = True 
-            holder = CACHE.holder( self, None, key=key )
             mHolder = None
         else:
             doConnect = False
@@ -78,9 +77,17 @@ class _NodePath( object ):
                 if scale or rotate:
                     holder.depend( item, 'center' )
             return child_holder.data[inverse]
-        matrix = transformmatrix.compressMatrices( 
-            *[get_mat(item) for item in self.transformChildren(reverse=inverse)]
-        )
+        try:
+            if doConnect:
+                holder = CACHE.holder( self, None, key=key )
+            matrix = transformmatrix.compressMatrices( 
+                *[get_mat(item) for item in self.transformChildren(reverse=inverse)]
+            )
+        except:
+            # not to be found with only some of its dependencies
+            if doConnect and holder is not None:
+                holder()
+            raise
         if matrix is None:
             matrix = identity(4, dtype='f')
         holder.data = matrix
-- 
2.43.0


From d2e4d3ca6d10b19201b3a480806a31d215d9b89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:45 +0000
Subject: [PATCH 54/56] fix: a list of nodes is not left unwatched, nor its
 nodes without their root, when an exception breaks off its assignment

---
 vrml/node.py | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/vrml/node.py b/vrml/node.py
index 3a18da9..2f3030d 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -524,13 +524,26 @@ class _MFNode(object):
         """
         previous = client.__dict__.get(self.name)
         if isinstance(previous, self.baseObjectType):
-            previous[:] = self.coerce(value)
+            value = self.coerce(value)
+            self._adopt(client, value)
+            previous[:] = value
             value = previous
-            if notify:
-                dispatcher.send(('set', self), client, value=value)
         else:
-            value = super(_MFNode, self).fset(client, value, notify)
-            self._watchList(client, value)
+            try:
+                value = super(_MFNode, self).fset(client, value, notify=0)
+                self._watchList(client, value)
+            except:
+                # no list is stored without being watched
+                if not isinstance(client, type):
+                    self._unwatchList(client, client.__dict__.pop(self.name, None))
+                raise
+            self._adopt(client, value)
+        if notify:
+            dispatcher.send(('set', self), client, value=value)
+        return value
+
+    def _adopt(self, client, value):
+        """Set root of nodes in value without one to the root of client"""
         if value:
             clientRoot = Node.rootSceneGraph.fget(client)
             if clientRoot:
@@ -538,7 +551,6 @@ class _MFNode(object):
                     valueRoot = Node.rootSceneGraph.fget(val)
                     if not valueRoot:
                         Node.rootSceneGraph.fset(val, clientRoot, notify=0)
-        return value
 
     def _watchList(self, client, value):
         """Register for updates to the list-of-objects value
@@ -634,9 +646,15 @@ class MFNode(_MFNode, field.Field):
 
     def getDefault(self, client=None):
         """Get the default value, watching the list stored for client"""
-        value = super(MFNode, self).getDefault(client)
-        if client is not None and not isinstance(client, type):
+        if client is None or isinstance(client, type):
+            return super(MFNode, self).getDefault(client)
+        try:
+            value = super(MFNode, self).getDefault(client)
             self._watchList(client, value)
+        except:
+            # no list is stored without being watched
+            self._unwatchList(client, client.__dict__.pop(self.name, None))
+            raise
         return value
 
 
-- 
2.43.0


From 47379d5892d41f8578d3ac85ef788ae8974c9046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:35 +0000
Subject: [PATCH 55/56] fix: the accelerated rotMatrix takes axes whose squares
 are beyond the range of floats

---
 accelerate/src/tmatrixaccel.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/accelerate/src/tmatrixaccel.pyx b/accelerate/src/tmatrixaccel.pyx
index 7b3d4b0..6a1f247 100644
--- a/accelerate/src/tmatrixaccel.pyx
+++ b/accelerate/src/tmatrixaccel.pyx
@@ -27,15 +27,17 @@ def scaleMatrix( float x=1.0, float y=1.0, float z=1.0 ):
 def rotMatrix( float x=0.0, float y=1.0, float z=0.0, float a=0.0 ):
     """Produce a rotation matrix around vector x,y,z of angle a (radians)"""
     cdef float c,s,t
+    # squares of floats may be beyond the range of floats
+    cdef double x2,y2,z2,h2,h
     c = np.cos( a )
     s = np.sin( a )
     t = 1-c
     if x == y == z == 0.0:
         y = 1.0
     # x,y,z must be a *normalized* vector for the rotation matrix...
-    x2 = x*x
-    y2 = y*y
-    z2 = z*z
+    x2 = <double>x*x
+    y2 = <double>y*y
+    z2 = <double>z*z
     h2 = x2+y2+z2
     if h2 != 1.0:
         h = h2 ** .5 
-- 
2.43.0


From b2f7d5f25c6f41d64f519266e00117e1326ac161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:37 +0000
Subject: [PATCH 56/56] fix: rotMatrix takes arrays of axes whose squares are
 beyond the range of floats

---
 vrml/vrml97/_transformmatrix.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vrml/vrml97/_transformmatrix.py b/vrml/vrml97/_transformmatrix.py
index 8da19ed..5bf86c1 100644
--- a/vrml/vrml97/_transformmatrix.py
+++ b/vrml/vrml97/_transformmatrix.py
@@ -27,7 +27,10 @@ def rotMatrix( source=None ):
             y = 1.0
         squared = x*x + y*y + z*z
         if squared != 1.0:
-            length = squared ** .5
+            # relative to the largest, as squares may be beyond the range of floats
+            largest = max( abs(x), abs(y), abs(z))
+            x,y,z = x/largest, y/largest, z/largest
+            length = (x*x + y*y + z*z) ** .5
             x /= length 
             y /= length 
             z /= length
-- 
2.43.0

