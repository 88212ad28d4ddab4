From 5068f955b385df18fd4a0fdfaed580835eabbeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:02 +0000
Subject: [PATCH 001/104] fix: XML parser read past the end of documents
 truncated inside a text, comment, attribute or multi-byte character

---
 include/gear/gearxml/tinyxml.h | 11 +++++++++--
 src/gearxml/tinyxmlparser.cc   | 17 +++++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/gear/gearxml/tinyxml.h b/include/gear/gearxml/tinyxml.h
index 2882a83..cd6ff3a 100644
--- a/include/gear/gearxml/tinyxml.h
+++ b/include/gear/gearxml/tinyxml.h
@@ -291,8 +291,15 @@ protected:
 		}
 		else if ( *length )
 		{
-			strncpy( _value, p, *length );
-			return p + (*length);
+			// A truncated sequence at the end must not take us past the terminating null.
+			int n = 0;
+			while ( n < *length && p[n] )
+			{
+				_value[n] = p[n];
+				++n;
+			}
+			*length = n;
+			return p + n;
 		}
 		else
 		{
diff --git a/src/gearxml/tinyxmlparser.cc b/src/gearxml/tinyxmlparser.cc
index 311ae5a..b1fe000 100644
--- a/src/gearxml/tinyxmlparser.cc
+++ b/src/gearxml/tinyxmlparser.cc
@@ -276,6 +276,12 @@ void TiXmlParsingData::Stamp( const char* now, TiXmlEncoding encoding )
 						else
 							{ p +=3; ++col; }	// A normal character.
 					}
+					else
+					{
+						// truncated sequence at the end of the document
+						++p;
+						++col;
+					}
 				}
 				else
 				{
@@ -291,7 +297,11 @@ void TiXmlParsingData::Stamp( const char* now, TiXmlEncoding encoding )
 					int step = TiXmlBase::utf8ByteTable[*((unsigned char*)p)];
 					if ( step == 0 )
 						step = 1;		// Error case from bad encoding, but handle gracefully.
-					p += step;
+					while ( step > 0 && *p )	// don't step past the terminating null
+					{
+						++p;
+						--step;
+					}
 
 					// Just advance one column, of course.
 					++col;
@@ -621,7 +631,10 @@ const char* TiXmlBase::ReadText(	const char* p,
 			}
 		}
 	}
-	return p + strlen( endTag );
+	// Never step past the terminating null of an unterminated text.
+	if ( p && *p )
+		p += strlen( endTag );
+	return ( p && *p ) ? p : 0;
 }
 
 #ifdef TIXML_USE_STL
-- 
2.43.0


From b65589dfe1a6eb9b7720d0d5260c5f641f65e21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:02 +0000
Subject: [PATCH 002/104] fix: XML parser aborted on a declaration that ends
 after white space

---
 src/gearxml/tinyxmlparser.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gearxml/tinyxmlparser.cc b/src/gearxml/tinyxmlparser.cc
index b1fe000..2b03ca0 100644
--- a/src/gearxml/tinyxmlparser.cc
+++ b/src/gearxml/tinyxmlparser.cc
@@ -1495,6 +1495,8 @@ const char* TiXmlDeclaration::Parse( const char* p, TiXmlParsingData* data, TiXm
 		}
 
 		p = SkipWhiteSpace( p, _encoding );
+		if ( !p || !*p )
+			break;
 		if ( StringEqual( p, "version", true, _encoding ) )
 		{
 			TiXmlAttribute attrib;
-- 
2.43.0


From 167469e74cca18f31acd93469e16bacef1a6339f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:03 +0000
Subject: [PATCH 003/104] fix: XML parser silently dropped the rest of a
 document after a duplicated attribute

---
 src/gearxml/tinyxmlparser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearxml/tinyxmlparser.cc b/src/gearxml/tinyxmlparser.cc
index 2b03ca0..b845dcf 100644
--- a/src/gearxml/tinyxmlparser.cc
+++ b/src/gearxml/tinyxmlparser.cc
@@ -1134,7 +1134,7 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 			TiXmlAttribute* node = attributeSet.Find( attrib->Name() );
 			if ( node )
 			{
-				node->SetValue( attrib->Value() );
+				if ( document ) document->SetError( TIXML_ERROR_PARSING_ELEMENT, pErr, data, encoding );
 				delete attrib;
 				return 0;
 			}
-- 
2.43.0


From b419208c362f3da9328634d50dcba554143a0ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:03 +0000
Subject: [PATCH 004/104] fix: loading a directory as XML file threw
 std::length_error

---
 src/gearxml/tinyxml.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearxml/tinyxml.cc b/src/gearxml/tinyxml.cc
index 0217409..5ef475b 100644
--- a/src/gearxml/tinyxml.cc
+++ b/src/gearxml/tinyxml.cc
@@ -968,7 +968,7 @@ bool TiXmlDocument::LoadFile( const char* filename, TiXmlEncoding encoding )
 		fseek( file, 0, SEEK_SET );
 
 		// Strange case, but good to handle up front.
-		if ( length == 0 )
+		if ( length <= 0 || (size_t) length > TIXML_STRING().max_size() )	// empty, or not a regular file
 		{
 			fclose( file );
 			return false;
-- 
2.43.0


From a8188c98b632a5b7a2550123f6e6f24e9b5a60a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:03 +0000
Subject: [PATCH 005/104] fix: null pointer dereference when a detector element
 lacks one of its child elements

---
 src/gearxml/FTDParametersXML.cc           | 2 ++
 src/gearxml/SiPlanesParametersXML.cc      | 4 ++++
 src/gearxml/TrackerPlanesParametersXML.cc | 2 ++
 src/gearxml/XMLHandlerMgr.cc              | 6 +++---
 src/gearxml/ZPlanarParametersXML.cc       | 2 ++
 5 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/gearxml/FTDParametersXML.cc b/src/gearxml/FTDParametersXML.cc
index 9d4efcc..1066c6a 100644
--- a/src/gearxml/FTDParametersXML.cc
+++ b/src/gearxml/FTDParametersXML.cc
@@ -104,6 +104,8 @@ namespace gear
 		
 		// layers
 		const TiXmlNode* xmlLayers = xmlElement->FirstChildElement( "layers" ) ;
+		if( xmlLayers == 0 )
+			throw ParseException( "FTDParametersXML::fromXML: missing element \"layers\"" ) ;
 		const TiXmlNode* xmlLayer = 0 ;
 		
 		while( ( xmlLayer = xmlLayers->IterateChildren( "layer" , xmlLayer ) ) != 0 ) 
diff --git a/src/gearxml/SiPlanesParametersXML.cc b/src/gearxml/SiPlanesParametersXML.cc
index bc5730f..c92ecbf 100644
--- a/src/gearxml/SiPlanesParametersXML.cc
+++ b/src/gearxml/SiPlanesParametersXML.cc
@@ -202,6 +202,8 @@ namespace gear {
 
     if (intType == SiPlanesParameters::TelescopeWithDUT) {
       const TiXmlNode* xmlDUT = xmlElement->FirstChildElement( "dut" ) ;
+      if( xmlDUT == 0 )
+	throw ParseException( "SiPlanesParametersXML::fromXML: missing element \"dut\"" ) ;
       const TiXmlNode* xmlDUTLad = xmlDUT->FirstChildElement( "dut_ladder" ) ;
       const TiXmlNode* xmlDUTSen = xmlDUT->FirstChildElement( "dut_sensitive" ) ;
       
@@ -237,6 +239,8 @@ namespace gear {
 
     // layers
     const TiXmlNode* xmlLayers = xmlElement->FirstChildElement( "layers" ) ;
+    if( xmlLayers == 0 )
+      throw ParseException( "SiPlanesParametersXML::fromXML: missing element \"layers\"" ) ;
 
     const TiXmlNode* xmlLayer = 0 ;
     while( ( xmlLayer = xmlLayers->IterateChildren( "layer" , xmlLayer ) ) != 0 ) {
diff --git a/src/gearxml/TrackerPlanesParametersXML.cc b/src/gearxml/TrackerPlanesParametersXML.cc
index 9aca3ba..f71c847 100644
--- a/src/gearxml/TrackerPlanesParametersXML.cc
+++ b/src/gearxml/TrackerPlanesParametersXML.cc
@@ -139,6 +139,8 @@ namespace gear {
 
     // layers
     const TiXmlNode* xmlLayers = xmlElement->FirstChildElement( "layers" ) ;
+    if( xmlLayers == 0 )
+      throw ParseException( "TrackerPlanesParametersXML::fromXML: missing element \"layers\"" ) ;
 
     const TiXmlNode* xmlLayer = 0 ;
     while( ( xmlLayer = xmlLayers->IterateChildren( "layer" , xmlLayer ) ) != 0 ) {
diff --git a/src/gearxml/XMLHandlerMgr.cc b/src/gearxml/XMLHandlerMgr.cc
index 710c9c1..ab163ef 100644
--- a/src/gearxml/XMLHandlerMgr.cc
+++ b/src/gearxml/XMLHandlerMgr.cc
@@ -88,7 +88,7 @@ namespace gear{
 
   std::string getXMLAttribute(const TiXmlNode* node , const std::string& name ) {
     
-    const TiXmlElement* el = node->ToElement() ;
+    const TiXmlElement* el = ( node != 0  ?  node->ToElement()  :  0 ) ;
     if( el == 0 ) {
        std::stringstream str ;
       str  << "XMLParser::getAttribute [" << name << "] not an XMLElement " ;
@@ -129,7 +129,7 @@ namespace gear{
 
   std::string getChildElementValue(const TiXmlNode* node , const std::string& name ) {
     
-    const TiXmlElement* el = node->ToElement() ;
+    const TiXmlElement* el = ( node != 0  ?  node->ToElement()  :  0 ) ;
     if( el == 0 ) {
         std::stringstream str ;
       str  << "XMLParser::getAttribute [" << name << "] not an XMLElement " ;
@@ -157,7 +157,7 @@ namespace gear{
 					  const std::string& defaultValue)
   {
       
-      const TiXmlElement* el = node->ToElement() ;
+      const TiXmlElement* el = ( node != 0  ?  node->ToElement()  :  0 ) ;
       if( el == 0 ) 
 	  throw ParseException("XMLParser::getAttribute not an XMLElement " ) ;
 	
diff --git a/src/gearxml/ZPlanarParametersXML.cc b/src/gearxml/ZPlanarParametersXML.cc
index 3f0d660..ebbe39a 100644
--- a/src/gearxml/ZPlanarParametersXML.cc
+++ b/src/gearxml/ZPlanarParametersXML.cc
@@ -167,6 +167,8 @@ namespace gear {
 
     // layers
     const TiXmlNode* xmlLayers = xmlElement->FirstChildElement( "layers" ) ;
+    if( xmlLayers == 0 )
+      throw ParseException( "ZPlanarParametersXML::fromXML: missing element \"layers\"" ) ;
     const TiXmlNode* xmlLayer = 0 ;
     
     while( ( xmlLayer = xmlLayers->IterateChildren( "layer" , xmlLayer ) ) != 0 ) {
-- 
2.43.0


From 9ce35b592c10e370c62b703cee3d72a405c126b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:31 +0000
Subject: [PATCH 006/104] fix: GearXML::createGearMgr returned an incomplete
 manager when called again after a parse error

---
 include/gear/gearxml/GearXML.h |  3 +++
 src/gearxml/GearXML.cc         | 24 ++++++++++++++++++------
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/gear/gearxml/GearXML.h b/include/gear/gearxml/GearXML.h
index d3c819c..b00e1ad 100644
--- a/include/gear/gearxml/GearXML.h
+++ b/include/gear/gearxml/GearXML.h
@@ -41,6 +41,9 @@ namespace gear {
 
   protected:
 
+    /** Fills _gearMgr from the XML file. */
+    void readFile() ;
+
      std::string _fileName{} ;
     GearMgrImpl* _gearMgr = nullptr ;
 
diff --git a/src/gearxml/GearXML.cc b/src/gearxml/GearXML.cc
index d2cc492..278b72a 100644
--- a/src/gearxml/GearXML.cc
+++ b/src/gearxml/GearXML.cc
@@ -482,6 +482,24 @@ namespace gear{
 
     }
     
+    try {
+
+      readFile() ;
+
+    } catch( ... ) {
+
+      // don't hand out the incomplete GearMgr in a later call 
+      delete _gearMgr ;
+      _gearMgr = 0 ;
+      throw ;
+    }
+
+    return _gearMgr ;
+  }
+
+
+  void GearXML::readFile() {
+
     
     // parse the XML file
     
@@ -635,13 +653,7 @@ namespace gear{
       }
 
     }
-   
-
-
 
-
-
-    return _gearMgr ;
   }
   
   
-- 
2.43.0


From 5cc35d91b8e3666db047c76787225b4653cb797f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:31 +0000
Subject: [PATCH 007/104] fix: reading a material with an empty or malformed
 attribute used an uninitialised or left over value

---
 src/gearxml/SimpleMaterialXML.cc | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/src/gearxml/SimpleMaterialXML.cc b/src/gearxml/SimpleMaterialXML.cc
index 6cb75e6..3346a8b 100644
--- a/src/gearxml/SimpleMaterialXML.cc
+++ b/src/gearxml/SimpleMaterialXML.cc
@@ -7,7 +7,7 @@
 #include "gearxml/XMLHandler.h"
 
 #include <string>
-#include <sstream>
+#include <cstdlib>
 
 namespace gear {
   
@@ -38,23 +38,11 @@ namespace gear {
 
     //std::cout << "  SimpleMaterialXML::fromXML( " << name << " ... ) " << std::endl ;
 
-    std::stringstream ss ; 
-    double dummy ;
-
-    ss << getXMLAttribute( xmlElement , "A" ) ;  ss >> dummy ; ss.clear() ;
-    double A = dummy ;
-
-    ss << getXMLAttribute( xmlElement , "Z" ) ;  ss >> dummy ; ss.clear() ;
-    double Z = dummy ;
-
-    ss << getXMLAttribute( xmlElement , "density" ) ;  ss >> dummy ; ss.clear() ;
-    double d = dummy ;
-
-    ss << getXMLAttribute( xmlElement , "radLength" ) ;  ss >> dummy ; ss.clear() ;
-    double rL = dummy ;
-
-    ss << getXMLAttribute( xmlElement , "intLength" ) ;  ss >> dummy ; ss.clear() ;
-    double iL = dummy ;
+    double A  = atof( getXMLAttribute( xmlElement , "A" ).c_str() ) ;
+    double Z  = atof( getXMLAttribute( xmlElement , "Z" ).c_str() ) ;
+    double d  = atof( getXMLAttribute( xmlElement , "density" ).c_str() ) ;
+    double rL = atof( getXMLAttribute( xmlElement , "radLength" ).c_str() ) ;
+    double iL = atof( getXMLAttribute( xmlElement , "intLength" ).c_str() ) ;
 
     SimpleMaterialImpl* sm = new SimpleMaterialImpl( name , A , Z , d , rL , iL  ) ;
 
-- 
2.43.0


From cd5e248f1dfbc36627a254942668c4d8d09b25d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:31 +0000
Subject: [PATCH 008/104] fix: string parameters were cut at the first blank
 and empty strings and vectors lost when read from XML

---
 src/gearxml/GearParametersXML.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/gearxml/GearParametersXML.cc b/src/gearxml/GearParametersXML.cc
index e04a9a8..88486c5 100644
--- a/src/gearxml/GearParametersXML.cc
+++ b/src/gearxml/GearParametersXML.cc
@@ -244,12 +244,15 @@ namespace gear {
       std::for_each( value.begin(), value.end(), t ) ; 
 
 
-	  // fg: protect against empty value strings  in the gear file
-	  if( stringValues.size() == 0 )
+      // fg: protect against empty value strings  in the gear file
+      // (an empty string and an empty vector are valid values)
+      std::string optType = getOptionalXMLAttribute( par, "type" , "" ) ;
 
-		  continue ;
+      if( stringValues.size() == 0  && optType != "string" &&
+	  optType != "IntVec" && optType != "DoubleVec" && optType != "StringVec" )
+
+	continue ;
 
- 
 
       std::string name = getXMLAttribute( par, "name" ) ;
       std::string type = getXMLAttribute( par, "type" ) ;
@@ -265,7 +268,7 @@ namespace gear {
 	
       } else if( type == "string" ){
 	
-	gearParams->setStringVal( name ,  stringValues[0]    )   ;
+	gearParams->setStringVal( name ,  value    )   ;
 	
       } else if( type == "IntVec" ){
 
-- 
2.43.0


From c7d632f3f89c5b7a9425cfb94f2b99f480b28009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:58 +0000
Subject: [PATCH 009/104] fix: the orientation and the x/y resolution of
 SiPlanes sensors were not written to XML

---
 src/gearxml/SiPlanesParametersXML.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gearxml/SiPlanesParametersXML.cc b/src/gearxml/SiPlanesParametersXML.cc
index c92ecbf..b827c01 100644
--- a/src/gearxml/SiPlanesParametersXML.cc
+++ b/src/gearxml/SiPlanesParametersXML.cc
@@ -133,6 +133,9 @@ namespace gear {
       sens.SetDoubleAttribute( "positionX" , siplanesLayers.getSensitivePositionX( i ) ) ;
       sens.SetDoubleAttribute( "positionY" , siplanesLayers.getSensitivePositionY( i ) ) ;
       sens.SetDoubleAttribute( "positionZ" , siplanesLayers.getSensitivePositionZ( i ) ) ;
+      sens.SetDoubleAttribute( "rotationXY" , siplanesLayers.getSensitiveRotationXY( i ) ) ;
+      sens.SetDoubleAttribute( "rotationZX" , siplanesLayers.getSensitiveRotationZX( i ) ) ;
+      sens.SetDoubleAttribute( "rotationZY" , siplanesLayers.getSensitiveRotationZY( i ) ) ;
       sens.SetDoubleAttribute( "sizeX" , siplanesLayers.getSensitiveSizeX( i ) ) ;
       sens.SetDoubleAttribute( "sizeY" , siplanesLayers.getSensitiveSizeY( i ) ) ;
       sens.SetDoubleAttribute( "thickness" , siplanesLayers.getSensitiveThickness( i ) ) ;
@@ -141,6 +144,8 @@ namespace gear {
       sens.SetDoubleAttribute( "pitchX" , siplanesLayers.getSensitivePitchX( i ) ) ;
       sens.SetDoubleAttribute( "pitchY" , siplanesLayers.getSensitivePitchY( i ) ) ;
       sens.SetDoubleAttribute( "resolution" , siplanesLayers.getSensitiveResolution( i ) ) ;
+      sens.SetDoubleAttribute( "resolutionX" , siplanesLayers.getSensitiveResolutionX( i ) ) ;
+      sens.SetDoubleAttribute( "resolutionY" , siplanesLayers.getSensitiveResolutionY( i ) ) ;
       sens.SetDoubleAttribute( "rotation1" , siplanesLayers.getSensitiveRotation1( i ) ) ;
       sens.SetDoubleAttribute( "rotation2" , siplanesLayers.getSensitiveRotation2( i ) ) ;
       sens.SetDoubleAttribute( "rotation3" , siplanesLayers.getSensitiveRotation3( i ) ) ;
-- 
2.43.0


From 14f80cf94211b5847c1f65afebf4909023fd6a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:58 +0000
Subject: [PATCH 010/104] fix: TrackerPlanes written to XML could not be read
 back (layers outside <layers>, without ID)

---
 src/gearxml/TrackerPlanesParametersXML.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/gearxml/TrackerPlanesParametersXML.cc b/src/gearxml/TrackerPlanesParametersXML.cc
index f71c847..e57e85e 100644
--- a/src/gearxml/TrackerPlanesParametersXML.cc
+++ b/src/gearxml/TrackerPlanesParametersXML.cc
@@ -60,6 +60,9 @@ namespace gear {
       TrackerPlanesLayerImpl* layer = const_cast<gear::TrackerPlanesLayerImpl*  > (trackerplanesLayerLayout.getLayer(il));
       if( layer == 0 ) continue;
 
+      xmlLayer.SetAttribute( "ID" , layer->getID() ) ;
+      xmlLayer.SetAttribute( "info" , layer->getInfo() ) ;
+
       TrackerPlanesMaterialLayerImplVec& material = layer->getMaterialLayerVec();
 
       TrackerPlanesSensitiveLayerImplVec& sensitive = layer->getSensitiveLayerVec();
@@ -111,9 +114,11 @@ namespace gear {
            xmlLayer.InsertEndChild( xmlSensor ) ;
        }
 
-      det.InsertEndChild( xmlLayer ) ;
+      layers.InsertEndChild( xmlLayer ) ;
     }
 
+    det.InsertEndChild( layers ) ;
+
     // Assemble Detector
     GearParametersXML::getXMLForParameters( &det , &parameters ) ;
 
-- 
2.43.0


From e47e801cae33da9240ed6a18b5230e9dc2a3a794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:58 +0000
Subject: [PATCH 011/104] fix: memory leak of every layer when reading
 TrackerPlanes from XML

---
 src/gearxml/TrackerPlanesParametersXML.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gearxml/TrackerPlanesParametersXML.cc b/src/gearxml/TrackerPlanesParametersXML.cc
index e57e85e..8546d83 100644
--- a/src/gearxml/TrackerPlanesParametersXML.cc
+++ b/src/gearxml/TrackerPlanesParametersXML.cc
@@ -150,15 +150,15 @@ namespace gear {
     const TiXmlNode* xmlLayer = 0 ;
     while( ( xmlLayer = xmlLayers->IterateChildren( "layer" , xmlLayer ) ) != 0 ) {
 
-            TrackerPlanesLayerImpl* layerImpl = new TrackerPlanesLayerImpl() ;
+            TrackerPlanesLayerImpl layerImpl ;
 
             int layerID = atoi( getXMLAttribute( xmlLayer, "ID" ).c_str() ) ;
 	    std::cout << " layer ID " << layerID << std::endl;
-            layerImpl->setID( layerID ) ; 
+            layerImpl.setID( layerID ) ; 
 
 	    std::string infoLayer = getOptionalXMLAttribute( xmlLayer, "info", "" ).c_str()  ;
 	    std::cout << " layer Info " << infoLayer << std::endl;
-            layerImpl->setInfo( infoLayer ) ; 
+            layerImpl.setInfo( infoLayer ) ; 
 
             const TiXmlNode* xmlLad = 0 ;
             while( ( xmlLad = xmlLayer->IterateChildren( "ladder" , xmlLad ) ) != 0 ) {
@@ -178,7 +178,7 @@ namespace gear {
 
 		    std::cout << " material layer ID " << lID << std::endl;
 
-         	    layerImpl->addMaterialLayer( lID, lInfo, lPosX, lPosY, lPosZ, lRotXY, lRotZX, lRotZY, lSizX, lSizY, lThick, lRadLen);                  
+         	    layerImpl.addMaterialLayer( lID, lInfo, lPosX, lPosY, lPosZ, lRotXY, lRotZX, lRotZY, lSizX, lSizY, lThick, lRadLen);                  
 	    }
 
             const TiXmlNode* xmlSen = 0 ;
@@ -205,10 +205,10 @@ namespace gear {
 		    double sResolY = atof(getOptionalXMLAttribute( xmlSen , "resolutionY", "0." ).c_str() ) ;
 		    std::cout << " sensitive layer ID " << sID << std::endl;
 
-	       	    layerImpl->addSensitiveLayer( sID, sInfo, sPosX, sPosY, sPosZ, sRotXY, sRotZX, sRotZY, sSizX, sSizY, sThick, sRadLen, sNPixX, sNPixY, sPitX, sPitY, sResolX, sResolY);
+	       	    layerImpl.addSensitiveLayer( sID, sInfo, sPosX, sPosY, sPosZ, sRotXY, sRotZX, sRotZY, sSizX, sSizY, sThick, sRadLen, sNPixX, sNPixY, sPitX, sPitY, sResolX, sResolY);
 	    }  
 
-            trackerplanesParam->addLayer( layerImpl ) ; // ? many scattering ladders and multi sensitive scructure -> double layer?
+            trackerplanesParam->addLayer( &layerImpl ) ; // ? many scattering ladders and multi sensitive scructure -> double layer?
 
     } // end loop
 
-- 
2.43.0


From d97068460aaa34db3cafa12d863a935c68c391f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:58 +0000
Subject: [PATCH 012/104] fix: the ID of a TrackerPlanes layer layout could not
 be read back

---
 include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h b/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h
index 5b473d2..ed8e6b1 100644
--- a/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h
+++ b/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h
@@ -384,7 +384,7 @@ class TrackerPlanesLayerLayoutImpl : public TrackerPlanesLayerLayout {
 	  virtual ~TrackerPlanesLayerLayoutImpl() { /* nop */; }
 		
           /** */
-          virtual int getID() const { return 0; }
+          virtual int getID() const { return ID; }
 
           /** */
           virtual void setID(int value) { ID = value; }
-- 
2.43.0


From cdde9fe258cc440c327f3b4f0927624b14f2d0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:58 +0000
Subject: [PATCH 013/104] fix: FixedPadAngleDiskLayout wrote the number of pads
 under a name the reader does not know

---
 src/gearxml/FixedPadAngleDiskLayoutXML.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearxml/FixedPadAngleDiskLayoutXML.cc b/src/gearxml/FixedPadAngleDiskLayoutXML.cc
index 44d6fd0..e52f54b 100644
--- a/src/gearxml/FixedPadAngleDiskLayoutXML.cc
+++ b/src/gearxml/FixedPadAngleDiskLayoutXML.cc
@@ -40,7 +40,7 @@ namespace gear {
     
     padRowLayout2DXML.SetDoubleAttribute("phiMax", (fixedPadLayout->getPlaneExtent())[3]);
     
-    padRowLayout2DXML.SetAttribute("nPadInRow",fixedPadLayout->getNPadsInRow());
+    padRowLayout2DXML.SetAttribute("nPadsInRow",fixedPadLayout->getNPadsInRow());
     
     return padRowLayout2DXML ;
   }
-- 
2.43.0


From 4805ba285674325bce72a3e19072a5679ef8b021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:58 +0000
Subject: [PATCH 014/104] fix: RectangularPadRowLayout wrote the row repetition
 under a name the reader does not know

---
 src/gearxml/RectangularPadRowLayoutXML.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearxml/RectangularPadRowLayoutXML.cc b/src/gearxml/RectangularPadRowLayoutXML.cc
index 5f9f91a..470f8a6 100644
--- a/src/gearxml/RectangularPadRowLayoutXML.cc
+++ b/src/gearxml/RectangularPadRowLayoutXML.cc
@@ -32,7 +32,7 @@ namespace gear {
     int repeatRowCount =  rectangularPadLayout->getRepeatRowCount() ;
 
     if( repeatRowCount > 1 )
-      padRowLayout2DXML.SetDoubleAttribute( "RepeatRows", repeatRowCount );
+      padRowLayout2DXML.SetAttribute( "repeatRows", repeatRowCount );
 
 
     const std::vector<unsigned>& rowNumbers = rectangularPadLayout->equalRowNumbers() ;
-- 
2.43.0


From dbc312f04d4b08e9badc5927bd0151a6bc6e541c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:58 +0000
Subject: [PATCH 015/104] fix: the readout frequency of a TPC module was
 truncated to an integer when read from XML

---
 src/gearxml/TPCModuleXML.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearxml/TPCModuleXML.cc b/src/gearxml/TPCModuleXML.cc
index 2ff34ba..b9e9061 100644
--- a/src/gearxml/TPCModuleXML.cc
+++ b/src/gearxml/TPCModuleXML.cc
@@ -99,7 +99,7 @@ TPCModule* TPCModuleXML::fromXML( const TiXmlElement* moduleElement ,
     {
 	throw ParseException("TPCModuleXML: No readoutFrequency in TPCModule" ) ;
     }
-    double 	readoutFrequency = atoi( getXMLAttribute( readoutFrequencyElement , "value" ).c_str() );
+    double 	readoutFrequency = atof( getXMLAttribute( readoutFrequencyElement , "value" ).c_str() );
     
     // get the pad layout
     const TiXmlElement* padLayoutElement = moduleElement->FirstChildElement( "PadRowLayout2D" );
-- 
2.43.0


From 65ceefa8bdbbecafe62add3ecac5ac1912648d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:11 +0000
Subject: [PATCH 016/104] fix: the drift velocity of a modular TPC was written
 to XML but not read back

---
 src/gearxml/TPCParametersXML.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gearxml/TPCParametersXML.cc b/src/gearxml/TPCParametersXML.cc
index 9f02c92..1b6aaac 100644
--- a/src/gearxml/TPCParametersXML.cc
+++ b/src/gearxml/TPCParametersXML.cc
@@ -143,6 +143,8 @@ namespace gear {
         // create the modular TPC
         modularTPC = new TPCParametersImpl( maxDriftLength ,coordinateType ) ;
 
+	modularTPC->setDriftVelocity( atof( getOptionalChildElementValue( xmlElement, "driftVelocity", "0." ).c_str() ) ) ;
+
 	// try to find a default module
 //	const TiXmlElement* defaultModuleElement = xmlElement->FirstChildElement("default");
 //	// no need to check whether the default module was found, the module parser can run without
-- 
2.43.0


From dc2c9a11eec2fd3c8920d1d4f4b9ecb0f7fca3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:11 +0000
Subject: [PATCH 017/104] fix: copying TPCParametersImpl recursed endlessly

---
 src/gearimpl/TPCParametersImpl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearimpl/TPCParametersImpl.cc b/src/gearimpl/TPCParametersImpl.cc
index ff2a2c8..d8e4149 100644
--- a/src/gearimpl/TPCParametersImpl.cc
+++ b/src/gearimpl/TPCParametersImpl.cc
@@ -78,7 +78,7 @@ namespace gear {
 
 	// call the assignment operator of the GearParametersImpl mother class:
 	// *dynamic_cast<GearParametersImpl*>(this) = *dynamic_cast<GearParametersImpl const *>(&right);
-        this->operator = (right);
+        GearParametersImpl::operator = (right);
     }
 
     /// Destructor.
-- 
2.43.0


From 144b406463fb45137d4d1909f71211aa685520e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:11 +0000
Subject: [PATCH 018/104] fix: self assignment of TPCParametersImpl deleted all
 modules

---
 src/gearimpl/TPCParametersImpl.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gearimpl/TPCParametersImpl.cc b/src/gearimpl/TPCParametersImpl.cc
index d8e4149..06e924f 100644
--- a/src/gearimpl/TPCParametersImpl.cc
+++ b/src/gearimpl/TPCParametersImpl.cc
@@ -90,6 +90,9 @@ namespace gear {
     ///Assignment operator
     TPCParametersImpl & TPCParametersImpl::operator = (  const TPCParametersImpl & right)
     {
+	if ( this == &right )
+	    return *this;
+
 	cleanup();
 	copy_and_assign( right );
 
-- 
2.43.0


From bdcf337e74bcf7d16dc1f8dcd528b732d88ab58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:50 +0000
Subject: [PATCH 019/104] fix: TPC module transformation left angles outside
 0..2pi and ignored the second offset component

---
 src/gearimpl/TPCModuleImpl.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index 0c07290..d77d5fe 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -45,12 +45,12 @@ namespace gear {
 	        // the calculation is much easyer
 	        if ( (_padRowLayout->getCoordinateType() == PadRowLayout2D::POLAR ) && 
 		     (_offset_cartesian[0] == 0 ) &&
-		     (_offset_cartesian[0] == 0 ) )
+		     (_offset_cartesian[1] == 0 ) )
 		{
 		    double localAngle = c1 - _angle ;
 		    // wrap to 0..2pi
-		    if (localAngle < 0) localAngle+= 2*M_PI;
-		    if (localAngle > 2*M_PI) localAngle+= 2*M_PI;
+		    while (localAngle < 0) localAngle+= 2*M_PI;
+		    while (localAngle > 2*M_PI) localAngle-= 2*M_PI;
 
 		    return Vector2D(c0, localAngle);
 		}
@@ -135,8 +135,8 @@ namespace gear {
 		  }
 
 		  // wrap phi to 0..2pi
-		  if (phi < 0)      phi += 2*M_PI;
-		  if (phi > 2*M_PI) phi -= 2*M_PI;
+		  while (phi < 0)      phi += 2*M_PI;
+		  while (phi > 2*M_PI) phi -= 2*M_PI;
 		  return Vector2D( r, phi );
 		}
 
-- 
2.43.0


From a6fcf59a6e85f42e87984a37f9abea5c45235d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:50 +0000
Subject: [PATCH 020/104] fix: setting the z position of a TPC module did not
 update its transformation and extents

---
 src/gearimpl/TPCModuleImpl.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index d77d5fe..815c1c3 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -1507,6 +1507,12 @@ namespace gear {
     {
       _zPosition = z;
       _zPositionIsSet = true;
+      // the sign of z decides whether the x coordinate is inverted
+      checkLocalIsGlobal();
+      // (extents of cartesian pads in a polar TPC are not implemented)
+      if ( _momsCoordinateType != PadRowLayout2D::POLAR || 
+	   _padRowLayout->getCoordinateType() != PadRowLayout2D::CARTESIAN )
+	convertLocalPlaneToGlobalPlaneExtend();
     }
 
     void TPCModuleImpl::setAngle(double angle)
-- 
2.43.0


From 57c011b5c514063643446c97f19d00d81cb2df97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:50 +0000
Subject: [PATCH 021/104] fix: the angular border of a TPC module was wrong for
 layouts starting at r=0 and for nearly full circles

---
 src/gearimpl/TPCModuleImpl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index 815c1c3..15d9857 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -213,7 +213,7 @@ namespace gear {
 		
 		    // first calculate the angle which corresponds to the border
 		    double phiBorder;
-		    if (_padRowLayout->getPlaneExtent()[1] > 0) // inner radius of pad plane > 0
+		    if (_padRowLayout->getPlaneExtent()[0] > 0) // inner radius of pad plane > 0
 			                                        // to avoid divide by 0
 		    {
 			//phiBorder = _border/_padRowLayout->getPlaneExtent()[1] * 2. *M_PI;
@@ -231,7 +231,7 @@ namespace gear {
 		    if (phiMax - phiMin > 2*M_PI)
 		    {
 			// the border should be half of the gap between the pad layout edged
-			phiBorder = (2*M_PI - phiMax + phiMin)/2.;
+			phiBorder = (2*M_PI - _padRowLayout->getPlaneExtent()[3] + _padRowLayout->getPlaneExtent()[2])/2.;
 			phiMin = _padRowLayout->getPlaneExtent()[2] - phiBorder;
 			phiMax = _padRowLayout->getPlaneExtent()[3] + phiBorder;
 		    }
-- 
2.43.0


From b93d6d232029f74eb48a0d3698b048e95231b53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:50 +0000
Subject: [PATCH 022/104] fix: copying a TPC module lost its generic
 parameters, self assignment used the deleted pad layout

---
 src/gearimpl/TPCModuleImpl.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index 15d9857..d55469d 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -1206,6 +1206,9 @@ namespace gear {
 
     TPCModuleImpl & TPCModuleImpl::operator = (const TPCModuleImpl &right)
     {
+	if ( this == &right )
+	    return *this;
+
 	cleanup();
 	copy_and_assign( right);
 	return *this;
@@ -1230,6 +1233,9 @@ namespace gear {
 	_zPosition = right._zPosition;
 	_zPositionIsSet = right._zPositionIsSet;
 
+	// the generic parameters
+	GearParametersImpl::operator = ( right );
+
 	// test all knows possible instances of padRowLayout
 	_padRowLayout = right._padRowLayout->clone();
     }
-- 
2.43.0


From c679ebfccc7a2fdeb252dd8c87ee633a767bb4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:50 +0000
Subject: [PATCH 023/104] fix: extents of a new TPC module with polar pads in a
 cartesian TPC were given in polar coordinates

---
 src/gearimpl/TPCModuleImpl.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index d55469d..7db3ae8 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -1197,6 +1197,12 @@ namespace gear {
 	  _zPositionIsSet = false;
 
 	  checkLocalIsGlobal();
+
+	  // the extents above are those of the pad plane: convert them if the TPC uses other coordinates
+	  // (not implemented for a polar TPC with cartesian pads)
+	  if ( _momsCoordinateType == PadRowLayout2D::CARTESIAN && 
+	       _padRowLayout->getCoordinateType() == PadRowLayout2D::POLAR )
+	      convertLocalPlaneToGlobalPlaneExtend();
     }
 
     TPCModuleImpl::TPCModuleImpl(const TPCModuleImpl &right)
-- 
2.43.0


From 8605b11fee5faab592ddd6e86659aaa4a5703a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:21 +0000
Subject: [PATCH 024/104] fix: RectangularPadRowLayout::repeatRows(0) tried to
 add four billion rows

---
 src/gearimpl/RectangularPadRowLayout.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index 4be80a1..859b353 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -140,7 +140,7 @@ namespace gear {
     
     int nRow = _rows.size() ;
     
-    for(unsigned i=0 ; i< count-1 ; ++i ){
+    for(unsigned i=1 ; i< count ; ++i ){
       for(int j=0 ; j< nRow; ++j ){
 	
 	const Row& r = _rows[j] ;
-- 
2.43.0


From 3f9106ba06db91661ecfbef7424ab2fb6b6427cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:21 +0000
Subject: [PATCH 025/104] fix: getPadsInRow of a copied RectangularPadRowLayout
 was always empty

---
 src/gearimpl/RectangularPadRowLayout.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index 859b353..e425d1c 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -44,7 +44,7 @@ namespace gear {
       // In every instance, also the copied ones, it is filled only at first
       // usage to save memory
       // just like in the constructor
-      _padIndices.resize( _nRow ) ;
+      _padIndices.resize( _rows.size() ) ;
       for (std::vector< std::vector<int>* >::iterator rowIter = _padIndices.begin() ; 
 	   rowIter < _padIndices.end(); rowIter++)
       {
-- 
2.43.0


From 9f986451187db6fb9e0d4d6e13f26409435f3801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:21 +0000
Subject: [PATCH 026/104] fix: RectangularPadRowLayout::getPadIndex accepted
 negative pad numbers and read outside an empty layout

---
 src/gearimpl/RectangularPadRowLayout.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index e425d1c..785ce48 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -274,12 +274,12 @@ namespace gear {
   int RectangularPadRowLayout::getPadIndex(int rowNum, int padNum) const { 
 
 
-    if( (unsigned) rowNum > _rows.size() - 1 ) {
+    if( rowNum < 0 || (unsigned) rowNum >= _rows.size() ) {
       
       throw std::out_of_range(" RectangularPadRowLayout::getPadIndex row number too large !");
     }
     
-    if( padNum > _rows[rowNum].NPad - 1 ) {
+    if( padNum < 0 || padNum > _rows[rowNum].NPad - 1 ) {
       
       std::stringstream sstr ;
       
-- 
2.43.0


From 38fbf15842e839d89fb72dfd8048c2914545a40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:41 +0000
Subject: [PATCH 027/104] fix: RectangularPadRowLayout::getNearestPad could
 loop endlessly or read outside the rows for rows of different height

---
 src/gearimpl/RectangularPadRowLayout.cc | 88 +++++++------------------
 1 file changed, 23 insertions(+), 65 deletions(-)

diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index 785ce48..542f4a9 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -362,71 +362,29 @@ int RectangularPadRowLayout::getNearestPad(double x, double y) const {
     if(  y < _extent[2] ) y =  _extent[2] ;
     if(  y > _extent[3] ) y =  _extent[3] ;
 
-	// make a best guess at the starting row by assuming all rows are the same height
-    int row_number = (int)( round( (_rows.size() - 1) * (y - _extent[2]) / (_extent[3] - _extent[2]) ) );
-
-    // do a binary search for the nearest row
-	while( true ) {
-
-		const Row &row = _rows[row_number];
-		const double y_displacement = y - row.Center;
-		
-		//std::cout << "Checking row " << row_number << ", centre: " << row.Center << ", displacement: " << y_displacement << "mm" << std::endl;
-
-		if( fabs(y_displacement) <= (row.PadHeight/2) ) {
-
-			// this is the correct row
-			break;
-		}
-		else if( fabs(y_displacement) <= (row.Height/2) ) {
-			
-			// check the next row of pads, it could be closer to them then this row
-			const int next_row_number = (y_displacement < 0)? row_number - 1: row_number + 1;
-			const Row &next_row = _rows[next_row_number];
-
-			const double y_distance_from_pads = fabs(y_displacement) - (row.PadHeight/2);
-			const double y_distance_from_next_pads = fabs(y - next_row.Center) - (next_row.PadHeight/2);
-
-			row_number = (y_distance_from_next_pads < y_distance_from_pads)? next_row_number: row_number;
-			break;
-		}
-		else {
-			// it wasn't in this row... find the next best guess
-			int remaining_rows;
-			double remaining_distance;
-			double offset;
-
-			if( y_displacement < 0 ) {
-				
-				remaining_rows = row_number;
-				remaining_distance = row.Center - _extent[2] - (row.Height/2.);
-				offset = y_displacement + (row.Height/2);
-			}
-			else {
-				
-				remaining_rows = _rows.size() - row_number - 1;
-				remaining_distance = _extent[3] - row.Center - (row.Height/2.);
-				offset = y_displacement - (row.Height/2);
-			}
-
-			const double param = remaining_rows * (offset / remaining_distance);
-			const int delta_row = (int)((param < 0)? floor(param): ceil(param));
-
-			if (delta_row==0)
-			{
-			  // hm, something went wrong in the logic. The next best guess should not be the
-			  // same row. This can happen due to rounding errors. So within numerical precision
-			  // we already found the nearest row. Breaking here avouids an endless loop.
-			  std::cout << "delta_row is 0, breaking loop" << std::endl;
-			  break;
-			}
-
-			row_number += delta_row;
-		}
-		
-		/*std::cout << "Hit Enter to continue... \n";
-		std::cin.get();*/
-	}
+    if( _rows.empty() )
+      throw Exception("RectangularPadRowLayout::getNearestPad: layout has no rows !");
+
+    // do a binary search for the row containing y - rows are ordered and adjacent in y
+    int row_number = 0 ;
+    int last_row = _rows.size() - 1 ;
+    while( row_number < last_row ) {
+      const int middle = ( row_number + last_row ) / 2 ;
+      if( y > _rows[middle].Center + _rows[middle].Height / 2. )
+	row_number = middle + 1 ;
+      else
+	last_row = middle ;
+    }
+
+    // in the gap of this row the pads of the adjacent row could be closer
+    const double y_displacement = y - _rows[row_number].Center ;
+    const double y_distance_from_pads = fabs(y_displacement) - _rows[row_number].PadHeight / 2. ;
+    const int next_row_number = (y_displacement < 0)? row_number - 1: row_number + 1 ;
+    if( y_distance_from_pads > 0. && next_row_number >= 0 && next_row_number < (int) _rows.size() ) {
+      const Row &next_row = _rows[next_row_number] ;
+      if( fabs(y - next_row.Center) - next_row.PadHeight / 2. < y_distance_from_pads )
+	row_number = next_row_number ;
+    }
 
 	// we have the row number... find the pad number
     int pad_number = 0 ;
-- 
2.43.0


From 003879115d0a25dcdfdaf26e84e10b3e76fdc84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:41 +0000
Subject: [PATCH 028/104] fix: RectangularPadRowLayout with rows completely
 filled by pads could not be read back from XML

---
 src/gearimpl/RectangularPadRowLayout.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index 542f4a9..bee5d2b 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -77,7 +77,8 @@ namespace gear {
 
     double rowWidth = xMax - xMin ;
 
-    if( nPad * padWidth   >  rowWidth ) {
+    // allow for the limited precision of numbers read from a file
+    if( nPad * padWidth   >  rowWidth + 1e-8 * ( fabs( _extent[0] ) + fabs( _extent[1] ) ) ) {
 
       std::stringstream sstr ;
       sstr << "RectangularPadRowLayout::addRow: can't fit " 
-- 
2.43.0


From 4ad6a6188f97693d702b8dfc332b0e4d5c7b7ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:41 +0000
Subject: [PATCH 029/104] fix: repeated patterns with groups of equal rows in a
 RectangularPadRowLayout were written with rows missing

---
 src/gearxml/RectangularPadRowLayoutXML.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gearxml/RectangularPadRowLayoutXML.cc b/src/gearxml/RectangularPadRowLayoutXML.cc
index 470f8a6..167be26 100644
--- a/src/gearxml/RectangularPadRowLayoutXML.cc
+++ b/src/gearxml/RectangularPadRowLayoutXML.cc
@@ -38,14 +38,14 @@ namespace gear {
     const std::vector<unsigned>& rowNumbers = rectangularPadLayout->equalRowNumbers() ;
     int theRow = 0 ;
 
-    int rowNum  = rowNumbers.size() ; 
+    int rowNum  = rectangularPadLayout->rows().size() ; 
     
     if( repeatRowCount > 1  ) 
       rowNum /=  repeatRowCount ;
 
     
     
-    for(int i=0 ; i< rowNum ; ++i){
+    for(int i=0 ; theRow < rowNum ; ++i){
       
       TiXmlElement rowElement("row");    
       
-- 
2.43.0


From 57ead6ec474424634fa70fcdbf0c6d62f2d50418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:17 +0000
Subject: [PATCH 030/104] fix: disk layouts returned a pad index for negative
 row and pad numbers

---
 src/gearimpl/FixedPadAngleDiskLayout.cc | 4 ++--
 src/gearimpl/FixedPadSizeDiskLayout.cc  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gearimpl/FixedPadAngleDiskLayout.cc b/src/gearimpl/FixedPadAngleDiskLayout.cc
index 33bd24c..1141306 100644
--- a/src/gearimpl/FixedPadAngleDiskLayout.cc
+++ b/src/gearimpl/FixedPadAngleDiskLayout.cc
@@ -188,12 +188,12 @@ namespace gear {
 
   int FixedPadAngleDiskLayout::getPadIndex(int rowNum, int padNum) const {
 
-      if( rowNum  > _nRow - 1 )
+      if( rowNum < 0 || rowNum  > _nRow - 1 )
       {
 	  throw std::out_of_range(" FixedPadAngleDiskLayout::getPadIndex row number too large !");
       }
     
-    if( padNum > _nPadsInRow - 1 ) {
+    if( padNum < 0 || padNum > _nPadsInRow - 1 ) {
       
       std::stringstream sstr ;
       
diff --git a/src/gearimpl/FixedPadSizeDiskLayout.cc b/src/gearimpl/FixedPadSizeDiskLayout.cc
index 7466118..ebcd783 100644
--- a/src/gearimpl/FixedPadSizeDiskLayout.cc
+++ b/src/gearimpl/FixedPadSizeDiskLayout.cc
@@ -237,12 +237,12 @@ namespace gear {
 
   int FixedPadSizeDiskLayout::getPadIndex(int rowNum, int padNum) const {
 
-    if( (unsigned) rowNum > _rows.size() - 1 ) {
+    if( rowNum < 0 || (unsigned) rowNum >= _rows.size() ) {
 
       throw std::out_of_range(" FixedPadSizeDiskLayout::getPadIndex row number too large !");
     }
 
-    if( padNum > _rows[rowNum].NPad - 1 ) {
+    if( padNum < 0 || padNum > _rows[rowNum].NPad - 1 ) {
 
       std::stringstream sstr ;
 
-- 
2.43.0


From 0094933a6e1fd875fc0df9146d3da6e5db97e417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:08 +0000
Subject: [PATCH 031/104] fix: FixedPadAngleDiskLayout::getNearestPad threw for
 points at the upper edge in phi

---
 src/gearimpl/FixedPadAngleDiskLayout.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gearimpl/FixedPadAngleDiskLayout.cc b/src/gearimpl/FixedPadAngleDiskLayout.cc
index 1141306..5fbd5f7 100644
--- a/src/gearimpl/FixedPadAngleDiskLayout.cc
+++ b/src/gearimpl/FixedPadAngleDiskLayout.cc
@@ -224,6 +224,8 @@ namespace gear {
     {
 	// This is easy, the pad number in the row is the one corresponding to the angle
 	int padNumber = static_cast<int>( (phi - _phiMin) / _padAngle );
+	if( padNumber >= _nPadsInRow )
+	    padNumber = _nPadsInRow -1 ;
 	
 	int rowNum = r < _rMin ? 0 : (int) std::floor( ( r - _rMin ) / _rowHeight  ) ;
     
-- 
2.43.0


From 650f2ddfadae8f3f3c221909571f9767deb983aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:08 +0000
Subject: [PATCH 032/104] fix: FixedPadAngleDiskLayout::getNearestPad returned
 the wrong row for points beside the layout

---
 src/gearimpl/FixedPadAngleDiskLayout.cc | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/src/gearimpl/FixedPadAngleDiskLayout.cc b/src/gearimpl/FixedPadAngleDiskLayout.cc
index 5fbd5f7..8ca99bd 100644
--- a/src/gearimpl/FixedPadAngleDiskLayout.cc
+++ b/src/gearimpl/FixedPadAngleDiskLayout.cc
@@ -236,16 +236,6 @@ namespace gear {
     }
 
     int rowNum_right;
-    if (fabs(phi - _phiMin) > M_PI_2)
-    {
-        // Note: It is also possible that fabs(phi - _phiMin) > M_PI_2 is larger than 3/2 pi, in which case
-        // the statement 'rowNum_right =0' is not necessarily correct and the calculation below 
-        // might be used. However, the nearest pad will not be on this edge (has to be within +- pi).
-        // Hence the calculation of the distance will pick the other, correct pad, so it does not matter
-        // if the calculated distance is done to the nearest pad on this edge or the pad in row 0.
-        rowNum_right = 0;
-    }
-    else
     {  
         // calculate pca to straight line along radius with _phiMin
 
@@ -256,24 +246,19 @@ namespace gear {
 	//    double m_min =  r * (cos(phi)*sin(_phiMin) - sin(phi)*cos(_phiMin));
       
 	// determine the nearest pad on the rightmost edge
-	rowNum_right = r_intersect_min < _rMin ? 0 : (int) std::floor( ( r - _rMin ) / _rowHeight  ) ;
+	rowNum_right = r_intersect_min < _rMin ? 0 : (int) std::floor( ( r_intersect_min - _rMin ) / _rowHeight  ) ;
 	if( rowNum_right >= _nRow  )       
 	    rowNum_right = _nRow -1 ;
     }
 
     // now the same for _phiMax
     int rowNum_left;
-    if (fabs(phi - _phiMax) > M_PI_2)
-    {
-        rowNum_left = 0;
-    }
-    else
     {  
         double r_intersect_max = r * (cos(phi)*cos(_phiMax) + sin(phi)*sin(_phiMax));
 	//    double m_max =  r * (cos(phi)*sin(_phiMax) - sin(phi)*cos(_phiMax));
 
 	// determine the nearest pad on the leftmost edge
-	rowNum_left = r_intersect_max < _rMin ? 0 : (int) std::floor( ( r - _rMin ) / _rowHeight  ) ;
+	rowNum_left = r_intersect_max < _rMin ? 0 : (int) std::floor( ( r_intersect_max - _rMin ) / _rowHeight  ) ;
 	if( rowNum_left >= _nRow  )       
 	    rowNum_left = _nRow -1 ;
     }
-- 
2.43.0


From 12525c217e1652f4abaf751968793b73726e3b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:08 +0000
Subject: [PATCH 033/104] fix: disk layouts did not recognise a pad if phi was
 given in a different 2 pi range

---
 src/gearimpl/FixedDiskLayoutBase.cc     | 4 ++++
 src/gearimpl/FixedPadAngleDiskLayout.cc | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/gearimpl/FixedDiskLayoutBase.cc b/src/gearimpl/FixedDiskLayoutBase.cc
index 0bc1124..0fd9fad 100644
--- a/src/gearimpl/FixedDiskLayoutBase.cc
+++ b/src/gearimpl/FixedDiskLayoutBase.cc
@@ -26,6 +26,10 @@ double FixedDiskLayoutBase::getDistanceToPad(double r, double phi, int padIndex)
 	double r_max = padCenter[0] + getRowHeight( getRowNumber(padIndex) ) /2.;
 	double phi_min = padCenter[1]- getPadPitch( padIndex ) /2.;
 	double phi_max = padCenter[1]+ getPadPitch( padIndex ) /2.;
+
+	// wrap phi to the range +- pi around the pad
+	while( phi < padCenter[1] - M_PI ) {  phi += 2. * M_PI  ; }
+	while( phi > padCenter[1] + M_PI ) {  phi -= 2. * M_PI  ; }
 	
 //      if( (r  < padCenter[0] - _rowHeight/2.) || (r > padCenter[0] + _rowHeight/2.) ||
 //	  (phi < padCenter[1]- _padAngle/2.)  || (phi < padCenter[1]+_padAngle/2. ) )
diff --git a/src/gearimpl/FixedPadAngleDiskLayout.cc b/src/gearimpl/FixedPadAngleDiskLayout.cc
index 8ca99bd..39c83b5 100644
--- a/src/gearimpl/FixedPadAngleDiskLayout.cc
+++ b/src/gearimpl/FixedPadAngleDiskLayout.cc
@@ -320,6 +320,10 @@ namespace gear {
 //     }
       Vector2D padCenter = getPadCenter( padIndex);
 
+      // wrap phi to the range +- pi around the pad
+      while( phi < padCenter[1] - M_PI ) {  phi += 2. * M_PI  ; }
+      while( phi > padCenter[1] + M_PI ) {  phi -= 2. * M_PI  ; }
+
       if( (r  < padCenter[0] - _rowHeight/2.) || (r > padCenter[0] + _rowHeight/2.) ||
 	  (phi < padCenter[1]- _padAngle/2.)  || (phi > padCenter[1]+_padAngle/2. ) )
 	  return false ;
@@ -329,6 +333,11 @@ namespace gear {
 
   bool FixedPadAngleDiskLayout::isInsidePad(double r, double phi) const {
 
+      // wrap phi to the range +- pi around the layout
+      double phiMean = (_phiMax+_phiMin)/2.;
+      while( phi < phiMean-M_PI ) {  phi += 2. * M_PI  ; }
+      while( phi > phiMean+M_PI ) {  phi -= 2. * M_PI  ; }
+
       if( (r < _rMin) || (r > _rMax) || (phi < _phiMin) || (phi > _phiMax) )
 	  return false ;
       else
-- 
2.43.0


From 4d829d1f709646861838e3a8f3b6261202dcf04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:08 +0000
Subject: [PATCH 034/104] fix: FixedPadSizeDiskLayout::getNearestPad returned
 the wrong edge of a sector for points beside it

---
 src/gearimpl/FixedPadSizeDiskLayout.cc | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/gearimpl/FixedPadSizeDiskLayout.cc b/src/gearimpl/FixedPadSizeDiskLayout.cc
index ebcd783..be6ae8d 100644
--- a/src/gearimpl/FixedPadSizeDiskLayout.cc
+++ b/src/gearimpl/FixedPadSizeDiskLayout.cc
@@ -267,20 +267,13 @@ namespace gear {
 	double rProjectedOnPhiMax = r;
 	double rProjectedOnPhiMin = r;
     
-    if (fabs(_phiMax - 2*M_PI) < 1e-6) {
-	  
-	  // wrap phi to 0 < phi < 2*M_PI
-	  while( phi < 0       ) {  phi += 2. * M_PI  ; }
-	  while( phi > 2.*M_PI ) {  phi -= 2. * M_PI  ; }
-	
-	} else {
-	 
-	  while( phi < -2*M_PI       ) {  phi += 2. * M_PI  ; }
-	  while( phi > 2.*M_PI ) {  phi -= 2. * M_PI  ; }
-	  
+    // wrap phi to the range +- pi around the layout
+    while( phi < 0.5*_phiMax - M_PI ) {  phi += 2. * M_PI  ; }
+    while( phi > 0.5*_phiMax + M_PI ) {  phi -= 2. * M_PI  ; }
+
+    if (fabs(_phiMax - 2*M_PI) >= 1e-6) {
 	  rProjectedOnPhiMax = r * cos(phi - _phiMax);
 	  rProjectedOnPhiMin = r * cos(phi - 0.);
-
 	}
 	  
 	//
-- 
2.43.0


From aa8fee3c78d898fb3df115a8c83ea6fd2bc768ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:08 +0000
Subject: [PATCH 035/104] fix: VersatileDiskRowLayout rows reported wrong rMin
 and rMax

---
 src/gearimpl/VersatileDiskRowLayout.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index 1e8c11f..c3e91a6 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -380,7 +380,7 @@ VersatileDiskRowLayout::Row::Row(int rowNumber, int nPads, double rCentre, doubl
 
     _phiMax = _offset + _padPitch*_nPads;
     _rMin = _rCentre - rowHeight*0.5;
-    _rMin = _rCentre + rowHeight*0.5;    
+    _rMax = _rCentre + rowHeight*0.5;    
 }
 
 int VersatileDiskRowLayout::Row::getNearestPad(double r, double phi) const
-- 
2.43.0


From 8a12bf7d7d6944c92a8ea91efb8e9f618b9355c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:08 +0000
Subject: [PATCH 036/104] fix: VersatileDiskRowLayout moved offsets above 2 pi
 in the wrong direction

---
 src/gearimpl/VersatileDiskRowLayout.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index c3e91a6..74c2423 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -363,7 +363,7 @@ VersatileDiskRowLayout::Row::Row(int rowNumber, int nPads, double rCentre, doubl
     if (_offset >=  2. * M_PI)
     {
 	_offset -= 2. * M_PI;
-	_offset_mm += rCentre*2. * M_PI;	
+	_offset_mm -= rCentre*2. * M_PI;	
     }
 
     _padPitch = _padPitch_mm / rCentre;
-- 
2.43.0


From 4c82d8289c5676bbe6e34cf2ad35b5aff592fcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:08 +0000
Subject: [PATCH 037/104] fix: VersatileDiskRowLayout returned a pad index for
 negative row and pad numbers

---
 src/gearimpl/VersatileDiskRowLayout.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index 74c2423..64d368f 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -225,12 +225,12 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
   int VersatileDiskRowLayout::getPadIndex(int rowNum, int padNum) const { 
 
 
-    if( (unsigned) rowNum > _rows.size() - 1 ) {
+    if( rowNum < 0 || (unsigned) rowNum >= _rows.size() ) {
       
       throw std::out_of_range(" VersatileDiskRowLayout::getPadIndex row number too large !");
     }
     
-    if( padNum > _rows[rowNum].getNPads() - 1 ) {
+    if( padNum < 0 || padNum > _rows[rowNum].getNPads() - 1 ) {
       
       std::stringstream sstr ;
       
-- 
2.43.0


From a8ef8dbbee7c8ee19e366763455e3514d840a0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:08 +0000
Subject: [PATCH 038/104] fix: VersatileDiskRowLayout: rows that are no full
 circle had the pad at the other end as neighbour

---
 src/gearimpl/VersatileDiskRowLayout.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index 64d368f..faa4ea1 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -255,7 +255,7 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
     if(pn == -1)
     {
     // take into account wrap arround in case of full circle (incl. rounding errors)
-	if (fabs(_extent[3] - _extent[2] - 2*M_PI) < 1e-6 )
+	if (fabs(_rows[rn].getPhiMax() - _rows[rn].getPhiMin() - 2*M_PI) < 1e-6 )
 	    pn =  _rows[rn].getNPads() -1 ;
 	else
 	    throw Exception("VersatileDiskRowLayout::getRightNeighbour: no right neighbour pad !");
@@ -274,7 +274,7 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
     if (pn == _rows[rn].getNPads())
     {
     // take into account wrap arround in case of full circle (incl. rounding errors)
-	if (fabs(_extent[3] - _extent[2] - 2*M_PI) < 1e-6 )
+	if (fabs(_rows[rn].getPhiMax() - _rows[rn].getPhiMin() - 2*M_PI) < 1e-6 )
 	    pn = 0 ;
 	else
 	    throw Exception("VersatileDiskRowLayout::getLeftNeighbour: no left neighbour pad !");
-- 
2.43.0


From e19393ce070fd7a09da51f98e4e88b60ad4e0b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:23 +0000
Subject: [PATCH 039/104] fix: the extent of a VersatileDiskRowLayout only
 contained the last of several repeated rows

---
 src/gearimpl/VersatileDiskRowLayout.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index faa4ea1..53c7543 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -85,14 +85,15 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
 			     padWidth, padHeight, offset ) ); 
 	_padIndices.push_back( 0 );
 	rCentre += rowHeight;
+
+	// calculate correct plane extent
+	if ( (_rows.size() ==1) || (_rows.back().getPhiMin() < _extent[2] ) )
+	    _extent[2] = _rows.back().getPhiMin();
+	if ( (_rows.size() ==1) || (_rows.back().getPhiMax() > _extent[3] ) )
+	    _extent[3] = _rows.back().getPhiMax();
     }
 
-    // calculate correct plane extent
     _extent[1]+= repeat * rowHeight;
-    if ( (_rows.size() ==1) || (_rows.back().getPhiMin() < _extent[2] ) )
-	_extent[2] = _rows.back().getPhiMin();
-    if ( (_rows.size() ==1) || (_rows.back().getPhiMax() > _extent[3] ) )
-	_extent[3] = _rows.back().getPhiMax();
     
     if ( (_extent[3] - _extent[2]) > 2*M_PI )
     {
-- 
2.43.0


From b99a540431f397218148880667cb7093a3326ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:43 +0000
Subject: [PATCH 040/104] fix: VersatileDiskRowLayout::getNearestPad was wrong
 beside the rows and for rows extending over phi = 0 or 2 pi

---
 src/gearimpl/VersatileDiskRowLayout.cc | 50 +++++++++++++-------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index 53c7543..4870068 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -386,10 +386,9 @@ VersatileDiskRowLayout::Row::Row(int rowNumber, int nPads, double rCentre, doubl
 
 int VersatileDiskRowLayout::Row::getNearestPad(double r, double phi) const
 {
-    // wrap phi to 0 < phi < 2*M_PI
-    
-	while( phi < 0       ) {  phi += 2. * M_PI  ; }
-    while( phi > 2.*M_PI ) {  phi -= 2. * M_PI  ; }
+    // wrap phi to the 2*M_PI range starting at the offset of the row
+    while( phi < _offset             ) {  phi += 2. * M_PI  ; }
+    while( phi > _offset + 2. * M_PI ) {  phi -= 2. * M_PI  ; }
 	
 	//
 
@@ -398,6 +397,8 @@ int VersatileDiskRowLayout::Row::getNearestPad(double r, double phi) const
     if (phi < _offset + _nPads * _padPitch)
     {
 	int padNumber = static_cast<int>(floor( (phi - _offset)/ _padPitch ));
+	if( padNumber >= _nPads )
+	    padNumber = _nPads - 1;
 	
 	return ( (_rowNumber<< 16) | (0x000ffff & padNumber) );
     }
@@ -415,10 +416,9 @@ int VersatileDiskRowLayout::Row::getNearestPad(double r, double phi) const
 
 double VersatileDiskRowLayout::Row::getDistanceToRow(double r, double phi) const
 {
-    // wrap phi to 0 < phi < 2*M_PI
-    
-	while( phi < 0       ) {  phi += 2. * M_PI  ; }
-    while( phi > 2.*M_PI ) {  phi -= 2. * M_PI  ; }
+    // wrap phi to the 2*M_PI range starting at the offset of the row
+    while( phi < _offset             ) {  phi += 2. * M_PI  ; }
+    while( phi > _offset + 2. * M_PI ) {  phi -= 2. * M_PI  ; }
 	
     // copy the code from getDistanceToPad....
 
@@ -467,15 +467,14 @@ double VersatileDiskRowLayout::Row::distanceToPhiMin(double r, double phi) const
 	double r_max   = _rCentre + _rowHeight*0.5;	
 	double phi_min = _offset;
 	
-	double distanceToCorner[2];
-	
-	distanceToCorner[0] = r_min*r_min + r*r - 2*r_min*r*cos(phi_min - phi);
-	distanceToCorner[1] = r_max*r_max + r*r - 2*r_max*r*cos(phi_min - phi);
-	
-	return sqrt(
-		distanceToCorner[0] > distanceToCorner[1] ?
-		distanceToCorner[1] : distanceToCorner[0]
-	);
+	// point on the edge with the smallest distance
+	double r_edge = r*cos(phi_min - phi);
+	if ( r_edge < r_min )
+	    r_edge = r_min;
+	if ( r_edge > r_max )
+	    r_edge = r_max;
+
+	return hypot( r*cos(phi_min - phi) - r_edge, r*sin(phi_min - phi) );
 }
 
 double VersatileDiskRowLayout::Row::distanceToPhiMax(double r, double phi) const
@@ -491,15 +490,14 @@ double VersatileDiskRowLayout::Row::distanceToPhiMax(double r, double phi) const
 	double r_max   = _rCentre + _rowHeight*0.5;	
 	double phi_max = _offset + _nPads * _padPitch;
 	
-	double distanceToCorner[2];
-	
-	distanceToCorner[0] = r_min*r_min + r*r - 2*r_min*r*cos(phi_max - phi);
-	distanceToCorner[1] = r_max*r_max + r*r - 2*r_max*r*cos(phi_max - phi);
-
-	return sqrt(
-		distanceToCorner[0] > distanceToCorner[1] ?
-		distanceToCorner[1] : distanceToCorner[0]
-	);
+	// point on the edge with the smallest distance
+	double r_edge = r*cos(phi_max - phi);
+	if ( r_edge < r_min )
+	    r_edge = r_min;
+	if ( r_edge > r_max )
+	    r_edge = r_max;
+
+	return hypot( r*cos(phi_max - phi) - r_edge, r*sin(phi_max - phi) );
 }    
 
 
-- 
2.43.0


From c9752b93f752c6bd3cac13ab99b62577c1e2f3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:43 +0000
Subject: [PATCH 041/104] fix: VersatileDiskRowLayout::isInsidePad missed pads
 if phi was given in a different 2 pi range

---
 src/gearimpl/VersatileDiskRowLayout.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index 4870068..7ef0679 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -322,10 +322,9 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
     double phiMin = row.getOffset() + row.getPadPitch()*pn;
 
     // wrap phi to phiMin .. phiMin + 2*pi
-    if (phi < phiMin)
+    while (phi < phiMin)
 	phi += 2. * M_PI;
-
-    if (phi >= phiMin + 2*M_PI)
+    while (phi >= phiMin + 2*M_PI)
 	phi -= 2. * M_PI;
 
     double phiMax = phiMin + row.getPadPitch();
@@ -337,9 +336,7 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
   bool VersatileDiskRowLayout::isInsidePad(double r, double phi) const {
 
     //  outside of pad plane
-    if( r < _extent[0] || r > _extent[1] || 
-	phi < _extent[2] || phi > _extent[3] )
-      
+    if( _rows.empty() || r < _extent[0] || r > _extent[1] )
       return false ;
     
     return  isInsidePad( r , phi , getNearestPad( r, phi ) )  ;
-- 
2.43.0


From 9ff05a3eaad397cac82fd9b813e0588b071660e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:43 +0000
Subject: [PATCH 042/104] fix: VersatileDiskRowLayout was written to XML in
 radians instead of mm and the pad width was not read back

---
 src/gearimpl/VersatileDiskRowLayout.cc   | 3 ++-
 src/gearxml/VersatileDiskRowLayoutXML.cc | 9 ++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index 7ef0679..192203b 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -365,7 +365,8 @@ VersatileDiskRowLayout::Row::Row(int rowNumber, int nPads, double rCentre, doubl
     }
 
     _padPitch = _padPitch_mm / rCentre;
-    if (_padPitch * nPads > 2*M_PI)
+    // allow for the limited precision of numbers read from a file
+    if (_padPitch * nPads > 2*M_PI*(1 + 1e-8))
     {
 	std::stringstream sstr;
 	sstr <<  "gear::VersatileDiskRowLayout::addRow(): "
diff --git a/src/gearxml/VersatileDiskRowLayoutXML.cc b/src/gearxml/VersatileDiskRowLayoutXML.cc
index 26a5efc..8ef4d9d 100644
--- a/src/gearxml/VersatileDiskRowLayoutXML.cc
+++ b/src/gearxml/VersatileDiskRowLayoutXML.cc
@@ -38,12 +38,11 @@ namespace gear {
 	TiXmlElement rowElement("row");
     
 	rowElement.SetAttribute("nPad", rowIter->getNPads() ) ;
-	rowElement.SetDoubleAttribute("padPitch", rowIter->getPadPitch() ) ; 
-	rowElement.SetDoubleAttribute("padPitch", rowIter->getPadPitch() ) ; 
+	rowElement.SetDoubleAttribute("padPitch", rowIter->getPadPitch_mm() ) ; 
 	rowElement.SetDoubleAttribute("rowHeight", rowIter->getRowHeight() ) ; 
-	rowElement.SetDoubleAttribute("padWidth", rowIter->getPadWidth() ) ; 
+	rowElement.SetDoubleAttribute("padWidth", rowIter->getPadWidth_mm() ) ; 
 	rowElement.SetDoubleAttribute("padHeight", rowIter->getPadHeight() ) ;
-	rowElement.SetDoubleAttribute("offset", rowIter->getOffset() ) ;
+	rowElement.SetDoubleAttribute("offset", rowIter->getOffset_mm() ) ;
 
 	padRowLayout2DXML.InsertEndChild( rowElement ) ;	
     }
@@ -65,7 +64,7 @@ namespace gear {
 	  double padPitch  =  atof(  getXMLAttribute( xmlRow, "padPitch" ) .c_str() ) ;
 	  double rowHeight =  atof(  getXMLAttribute( xmlRow , "rowHeight" ) .c_str() ) ;
 
-	  double padWidth  = atof(  getOptionalXMLAttribute( xmlRow , "padWidtht" , "0.0" ).c_str() ) ;
+	  double padWidth  = atof(  getOptionalXMLAttribute( xmlRow , "padWidth" , "0.0" ).c_str() ) ;
 	  double padHeight = atof(  getOptionalXMLAttribute( xmlRow , "padHeight" , "0.0" ).c_str() ) ;
 	  double offset    = atof(  getOptionalXMLAttribute( xmlRow , "offset"    , "0.0" ).c_str() ) ;
 	  int    repeat    = atoi(  getOptionalXMLAttribute( xmlRow , "repeat"    , "1" ).c_str() ) ;
-- 
2.43.0


From 087ad7ad9ee4c571c06d3b364d105badec6fa8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:24 +0000
Subject: [PATCH 043/104] fix: FTDLayerLayoutImpl::addLayer wrote into a vector
 without elements

---
 src/gearimpl/FTDLayerLayoutImpl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearimpl/FTDLayerLayoutImpl.cc b/src/gearimpl/FTDLayerLayoutImpl.cc
index 6535cc9..a6c8089 100644
--- a/src/gearimpl/FTDLayerLayoutImpl.cc
+++ b/src/gearimpl/FTDLayerLayoutImpl.cc
@@ -260,7 +260,7 @@ std::vector<vframe> FTDLayerLayoutImpl::getframe( const Layer & l )
 	vframe e3(0.0,cos(sigma),sin(sigma));
 
 	std::vector<vframe> fr;
-	fr.reserve(3);
+	fr.resize(3);
 	fr[0] = e1;
 	fr[1] = e2;
 	fr[2] = e3;
-- 
2.43.0


From c98442bfd73ff8451f8cf96ac9947e84ff471665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:24 +0000
Subject: [PATCH 044/104] fix: FTD disks at negative z were only found for
 layouts with seven layers

---
 src/gearimpl/FTDLayerLayoutImpl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearimpl/FTDLayerLayoutImpl.cc b/src/gearimpl/FTDLayerLayoutImpl.cc
index a6c8089..87d389a 100644
--- a/src/gearimpl/FTDLayerLayoutImpl.cc
+++ b/src/gearimpl/FTDLayerLayoutImpl.cc
@@ -78,7 +78,7 @@ int FTDLayerLayoutImpl::getEquivLayer(const int & layerIndex) const
 //FIXME: TO DEBUG!!
 	int correctedId = -1;
 	// Using the index of the vectors 0->2N-1
-	if( layerIndex > 6)
+	if( layerIndex >= getNLayers() )
 	{
 		correctedId = layerIndex-getNLayers();
 	}
-- 
2.43.0


From e43897123d46874633e8ae2852365bed45166317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:26 +0000
Subject: [PATCH 045/104] fix: XML parser rejected documents with white space
 before the > of an end tag

---
 src/gearxml/tinyxmlparser.cc | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/gearxml/tinyxmlparser.cc b/src/gearxml/tinyxmlparser.cc
index b845dcf..5088bbb 100644
--- a/src/gearxml/tinyxmlparser.cc
+++ b/src/gearxml/tinyxmlparser.cc
@@ -1063,7 +1063,6 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 
     TIXML_STRING endTag ("</");
 	endTag += value;
-	endTag += ">";
 
 	// Check for and read attributes. Also look for an empty
 	// tag or an end tag.
@@ -1100,14 +1099,14 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 			// We should find the end tag now
 			if ( StringEqual( p, endTag.c_str(), false, encoding ) )
 			{
-				p += endTag.length();
-				return p;
-			}
-			else
-			{
-				if ( document ) document->SetError( TIXML_ERROR_READING_END_TAG, p, data, encoding );
-				return 0;
+				// white space is allowed before the closing '>'
+				const char* pEnd = SkipWhiteSpace( p + endTag.length(), encoding );
+				if ( pEnd && *pEnd == '>' )
+					return pEnd + 1;
 			}
+
+			if ( document ) document->SetError( TIXML_ERROR_READING_END_TAG, p, data, encoding );
+			return 0;
 		}
 		else
 		{
-- 
2.43.0


From f92df7ec23fd8a08651bc9901354a97632331554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:50 +0000
Subject: [PATCH 046/104] fix: a copied TiXmlDocument lost the error code, the
 error location and the tab size

---
 src/gearxml/tinyxml.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gearxml/tinyxml.cc b/src/gearxml/tinyxml.cc
index 5ef475b..377c4d9 100644
--- a/src/gearxml/tinyxml.cc
+++ b/src/gearxml/tinyxml.cc
@@ -1018,7 +1018,10 @@ void TiXmlDocument::CopyTo( TiXmlDocument* target ) const
 	TiXmlNode::CopyTo( target );
 
 	target->error = error;
+	target->errorId = errorId;
 	target->errorDesc = errorDesc.c_str ();
+	target->errorLocation = errorLocation;
+	target->tabsize = tabsize;
 
 	TiXmlNode* node = 0;
 	for ( node = firstChild; node; node = node->NextSibling() )
-- 
2.43.0


From 206533907abaebe7094818e4c519cee84960c3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:50 +0000
Subject: [PATCH 047/104] fix: assigning a TiXmlElement or TiXmlDocument to
 itself deleted its contents

---
 src/gearxml/tinyxml.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/gearxml/tinyxml.cc b/src/gearxml/tinyxml.cc
index 377c4d9..84d3fe4 100644
--- a/src/gearxml/tinyxml.cc
+++ b/src/gearxml/tinyxml.cc
@@ -644,8 +644,11 @@ TiXmlElement::TiXmlElement( const TiXmlElement& copy)
 
 TiXmlElement& TiXmlElement::operator=( const TiXmlElement& base )
 {
-	ClearThis();
-	base.CopyTo( this );
+	if ( this != &base )
+	{
+		ClearThis();
+		base.CopyTo( this );
+	}
 	return *this ;
 }
 
@@ -912,8 +915,11 @@ TiXmlDocument::TiXmlDocument( const TiXmlDocument& copy ) : TiXmlNode( TiXmlNode
 
 TiXmlDocument& TiXmlDocument::operator=( const TiXmlDocument& copy )
 {
-	Clear();
-	copy.CopyTo( this );
+	if ( this != &copy )
+	{
+		Clear();
+		copy.CopyTo( this );
+	}
 	return *this ;
 }
 
-- 
2.43.0


From 85d18b5c9492d81a163e93bd96dd97837d336421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:50 +0000
Subject: [PATCH 048/104] fix: endless loop reading text after a child element
 if white space is kept

---
 src/gearxml/tinyxmlparser.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gearxml/tinyxmlparser.cc b/src/gearxml/tinyxmlparser.cc
index 5088bbb..bfbf6a3 100644
--- a/src/gearxml/tinyxmlparser.cc
+++ b/src/gearxml/tinyxmlparser.cc
@@ -1203,6 +1203,7 @@ const char* TiXmlElement::ReadValue( const char* p, TiXmlParsingData* data, TiXm
 				}
 			}
 		}
+		pWithWhiteSpace = p;
 		p = SkipWhiteSpace( p, encoding );
 	}
 
-- 
2.43.0


From f5de4a8f7a4222a192f53c0bff6929b5b297e31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:50 +0000
Subject: [PATCH 049/104] fix: TiXmlDocument::SaveFile reported success if the
 file could not be written completely

---
 src/gearxml/tinyxml.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gearxml/tinyxml.cc b/src/gearxml/tinyxml.cc
index 84d3fe4..70ea8a3 100644
--- a/src/gearxml/tinyxml.cc
+++ b/src/gearxml/tinyxml.cc
@@ -1012,8 +1012,10 @@ bool TiXmlDocument::SaveFile( const char * filename ) const
 	if ( fp )
 	{
 		Print( fp, 0 );
-		fclose( fp );
-		return true;
+		bool ok = ( ferror( fp ) == 0 );
+		if ( fclose( fp ) != 0 )
+			ok = false;
+		return ok;
 	}
 	return false;
 }
-- 
2.43.0


From 9d8e138298f43252dd789cc305a2753181f3de1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:50 +0000
Subject: [PATCH 050/104] fix: GearXML::createXMLFile ignored that the file
 could not be written

---
 include/gear/gearxml/GearXML.h | 2 ++
 src/gearxml/GearXML.cc         | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/gear/gearxml/GearXML.h b/include/gear/gearxml/GearXML.h
index b00e1ad..3eca347 100644
--- a/include/gear/gearxml/GearXML.h
+++ b/include/gear/gearxml/GearXML.h
@@ -35,6 +35,8 @@ namespace gear {
     
   
     /** Write an XML file to disk from the given GearMgr object.
+     *
+     *  @throws Exception if the file cannot be written
      */
      static void createXMLFile( GearMgr* mgr, const std::string& fileName ) ;
 
diff --git a/src/gearxml/GearXML.cc b/src/gearxml/GearXML.cc
index 278b72a..9866d1f 100644
--- a/src/gearxml/GearXML.cc
+++ b/src/gearxml/GearXML.cc
@@ -463,7 +463,9 @@ namespace gear{
 
     doc.InsertEndChild ( root ) ;
 
-    doc.SaveFile() ;
+    if( ! doc.SaveFile() ) {
+      throw Exception( "GearXML::createXMLFile: could not write file [" + fileName + "]" ) ;
+    }
 
   }
 
-- 
2.43.0


From bbaa468ab60bab5843a5f3ffe5ff7c52ce527402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:18 +0000
Subject: [PATCH 051/104] fix: MergeXML crashed on named elements without
 children present in both files

---
 src/gearxml/MergeXML.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearxml/MergeXML.cc b/src/gearxml/MergeXML.cc
index f25b50a..7ff7c46 100644
--- a/src/gearxml/MergeXML.cc
+++ b/src/gearxml/MergeXML.cc
@@ -162,7 +162,7 @@ namespace gear{
 	  }
  
 	  // start mergeNode for subordniate nodes
-	  if ( hasAttribute(loopNode) && !((loopNode->FirstChild())->ToText()) ) {
+	  if ( hasAttribute(loopNode) && loopNode->FirstChild() && !((loopNode->FirstChild())->ToText()) ) {
 	    mergeNode( loopNode, domChildNode ) ;
 	  }
 	    //else {
-- 
2.43.0


From 144d1d94640ad3648aa07ee193087bebbf5d0ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:18 +0000
Subject: [PATCH 052/104] fix: MergeXML crashed if a section is missing in one
 of the files and lost the BField of the secondary file

---
 src/gearxml/MergeXML.cc | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/gearxml/MergeXML.cc b/src/gearxml/MergeXML.cc
index 7ff7c46..938c40e 100644
--- a/src/gearxml/MergeXML.cc
+++ b/src/gearxml/MergeXML.cc
@@ -40,9 +40,8 @@ namespace gear{
 
     // variables
     const std::string gear = "gear" ;
-    const std::string global = "global" ;
     const std::string detectors = "detectors" ;
-    const std::string materials = "materials" ;
+    const char* const sections[] = { "global", "BField", "detectors", "materials" } ;
 
     // correct the files for dominancy
     correctDominantFile() ;
@@ -64,19 +63,26 @@ namespace gear{
 
     // go to specified nodes
     TiXmlNode* nodeGear1      = _file1->FirstChild( gear ) ;
-    TiXmlNode* nodeGlobal1    = nodeGear1->FirstChild( global ) ;
-    TiXmlNode* nodeDetectors1 = nodeGear1->FirstChild( detectors ) ;
-    TiXmlNode* nodeMaterials1 = nodeGear1->FirstChild( materials ) ;
-    
     TiXmlNode* nodeGearMerged = _fileMerged->FirstChild( gear ) ;
-    TiXmlNode* nodeGlobalMerged    = nodeGearMerged->FirstChild( global ) ;
-    TiXmlNode* nodeDetectorsMerged = nodeGearMerged->FirstChild( detectors ) ;
-    TiXmlNode* nodeMaterialsMerged = nodeGearMerged->FirstChild( materials ) ;
     
-    // loop through all nodes
-    mergeNode( nodeGlobal1, nodeGlobalMerged ) ;
-    mergeNode( nodeDetectors1, nodeDetectorsMerged ) ;
-    mergeNode( nodeMaterials1, nodeMaterialsMerged ) ;
+    // loop through all sections, each of them may be missing in either file
+    for ( unsigned i=0 ; i<sizeof( sections )/sizeof( sections[0] ) ; ++i ) {
+
+      TiXmlNode* section1      = nodeGear1->FirstChild( sections[i] ) ;
+      TiXmlNode* sectionMerged = nodeGearMerged->FirstChild( sections[i] ) ;
+
+      if ( section1 == NULL ) continue ;
+
+      if ( sectionMerged == NULL ) {
+	nodeGearMerged->InsertEndChild( *section1 ) ;
+      }
+      else {
+	if ( section1->ToElement() && sectionMerged->ToElement() ) {
+	  mergeAttribute( section1->ToElement(), sectionMerged->ToElement() ) ;
+	}
+	mergeNode( section1, sectionMerged ) ;
+      }
+    }
     
     // save file
     return _fileMerged->SaveFile( fileName ) ;
-- 
2.43.0


From 979f7388e08f07009941e5a4eca78c905bbf6b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:18 +0000
Subject: [PATCH 053/104] fix: MergeXML merged repeated elements with the wrong
 partner if they are not direct neighbours

---
 src/gearxml/MergeXML.cc | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/gearxml/MergeXML.cc b/src/gearxml/MergeXML.cc
index 938c40e..ffa9877 100644
--- a/src/gearxml/MergeXML.cc
+++ b/src/gearxml/MergeXML.cc
@@ -1,7 +1,9 @@
 #include "gear/GEAR.h"
 #include "gearxml/MergeXML.h"
 
+#include <map>
 #include <sstream>
+#include <utility>
 
 namespace gear{
 
@@ -92,9 +94,8 @@ namespace gear{
   // compare nodes
   void MergeXML::mergeNode( TiXmlNode* node, TiXmlNode* domNode ) {
 
-    // during the loop count occurences of same Name
-    int occurence = 0 ;
-    std::string lastName ;
+    // during the loop count occurences of same Name (without and with attribute name)
+    std::map< std::pair< bool, std::string >, int > occurences ;
 
 
     // debug information
@@ -140,13 +141,7 @@ namespace gear{
 	
 
 	// count occurences of same name
-	if ( lastName == getNodeName( loopNode ) ) {
-	     occurence ++ ;
-	}
-	else {
-	  occurence = 1 ;
-	}
-	lastName = getNodeName( loopNode ) ;
+	int occurence = ++occurences[ std::make_pair( hasAttribute( loopNode ), getNodeName( loopNode ) ) ] ;
 
 	// get the appropriate child note from dominant node
 	TiXmlNode* domChildNode = getChildNode( loopNode, domNode, occurence ) ;
@@ -157,7 +152,7 @@ namespace gear{
 	  domNode->InsertEndChild( *loopNode ) ;
 
 	  // debug information
-	  //std::cout << " Added node " << lastName << std::endl ;
+	  //std::cout << " Added node " << getNodeName( loopNode ) << std::endl ;
 	}
 	else {
 	  // check if nodes are elements
-- 
2.43.0


From a94d1823e53a573bd431b45eb5b8fc497b9403d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:39 +0000
Subject: [PATCH 054/104] fix: MergeXML exchanged the dominant file with every
 merge and crashed if a file was not set

---
 include/gear/gearxml/MergeXML.h |  7 -------
 src/gearxml/MergeXML.cc         | 30 ++++++++++++------------------
 2 files changed, 12 insertions(+), 25 deletions(-)

diff --git a/include/gear/gearxml/MergeXML.h b/include/gear/gearxml/MergeXML.h
index ec01d9d..9dbc069 100644
--- a/include/gear/gearxml/MergeXML.h
+++ b/include/gear/gearxml/MergeXML.h
@@ -49,7 +49,6 @@ namespace gear {
     MergeXML() : 
       _file1(NULL),
       _file2(NULL),
-      _fileSwap(NULL),
       _fileMerged(NULL),
       _domFile(2),
       _name(NAME_STR) {
@@ -61,9 +60,6 @@ namespace gear {
     //checks whether file can be read in
     bool checkXML( const std::string& fileName ) ;
 
-    //get files correct: dominant will be _file2 and recessiv will be _file1
-    void correctDominantFile() ;
-
     //compare nodes
     void mergeNode( TiXmlNode* node, TiXmlNode* domNode ) ;
 
@@ -91,9 +87,6 @@ namespace gear {
     //file2
     TiXmlDocument* _file2 ;
 
-    //fileSwap - if dominant changes
-    TiXmlDocument* _fileSwap ;
-
     //fileMerged - final document
     TiXmlDocument* _fileMerged ;
 
diff --git a/src/gearxml/MergeXML.cc b/src/gearxml/MergeXML.cc
index ffa9877..6372016 100644
--- a/src/gearxml/MergeXML.cc
+++ b/src/gearxml/MergeXML.cc
@@ -24,17 +24,6 @@ namespace gear{
   }
 
 
-  void MergeXML::correctDominantFile() {
-    
-    if ( _domFile == 1 ) {
-      _fileSwap = new TiXmlDocument ;
-      *_fileSwap = *_file1 ;
-      *_file1 = *_file2 ;
-      *_file2 = *_fileSwap ;
-    }
-  }
-
-
   bool MergeXML::mergeFiles (const std::string& fileName) {
 
     // debug information
@@ -45,16 +34,21 @@ namespace gear{
     const std::string detectors = "detectors" ;
     const char* const sections[] = { "global", "BField", "detectors", "materials" } ;
 
-    // correct the files for dominancy
-    correctDominantFile() ;
+    if ( _file1 == NULL || _file2 == NULL ) {
+      return false ;
+    }
+
+    // the files in order of dominancy
+    TiXmlDocument* recFile = ( _domFile == 1 ) ? _file2 : _file1 ;
+    TiXmlDocument* domFile = ( _domFile == 1 ) ? _file1 : _file2 ;
 
     // copy all dominant information in final file
-    _fileMerged = new TiXmlDocument( fileName ) ;
-    *_fileMerged = *_file2 ;
+    delete _fileMerged ;
+    _fileMerged = new TiXmlDocument( *domFile ) ;
     
     // check if files are geartype
-    if ( not ( _file1->FirstChild( gear ) && _fileMerged->FirstChild( gear )
-	       && (_file1->FirstChild( gear ))->FirstChild( detectors ) 
+    if ( not ( recFile->FirstChild( gear ) && _fileMerged->FirstChild( gear )
+	       && (recFile->FirstChild( gear ))->FirstChild( detectors ) 
 	       && (_fileMerged->FirstChild( gear ))->FirstChild( detectors )
 	       )) {
       
@@ -64,7 +58,7 @@ namespace gear{
     }
 
     // go to specified nodes
-    TiXmlNode* nodeGear1      = _file1->FirstChild( gear ) ;
+    TiXmlNode* nodeGear1      = recFile->FirstChild( gear ) ;
     TiXmlNode* nodeGearMerged = _fileMerged->FirstChild( gear ) ;
     
     // loop through all sections, each of them may be missing in either file
-- 
2.43.0


From e79b20fcd5c50f413bd1d70f89230ca195849482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:39 +0000
Subject: [PATCH 055/104] fix: MergeXML never deleted its documents

---
 include/gear/gearxml/MergeXML.h | 7 +++++++
 src/gearxml/MergeXML.cc         | 9 +++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/gear/gearxml/MergeXML.h b/include/gear/gearxml/MergeXML.h
index 9dbc069..b1ba1b8 100644
--- a/include/gear/gearxml/MergeXML.h
+++ b/include/gear/gearxml/MergeXML.h
@@ -53,6 +53,13 @@ namespace gear {
       _domFile(2),
       _name(NAME_STR) {
     }
+
+    /**destructor
+     */
+    ~MergeXML() ;
+
+    MergeXML( const MergeXML& ) = delete ;
+    MergeXML& operator=( const MergeXML& ) = delete ;
     
 
   private:
diff --git a/src/gearxml/MergeXML.cc b/src/gearxml/MergeXML.cc
index 6372016..4e0f463 100644
--- a/src/gearxml/MergeXML.cc
+++ b/src/gearxml/MergeXML.cc
@@ -8,8 +8,16 @@
 namespace gear{
 
 
+  MergeXML::~MergeXML() {
+    delete _file1 ;
+    delete _file2 ;
+    delete _fileMerged ;
+  }
+
+
   bool MergeXML::setFile1( const std::string& fileName ) {
 
+    delete _file1 ;
     _file1 = new TiXmlDocument( fileName ) ;
     
     return _file1->LoadFile( fileName ) ;
@@ -18,6 +26,7 @@ namespace gear{
 
   bool MergeXML::setFile2( const std::string& fileName ) {
     
+    delete _file2 ;
     _file2 = new TiXmlDocument( fileName ) ;
     
     return _file2->LoadFile( fileName ) ;
-- 
2.43.0


From 459f80086b547dfd359ce3048beddda3bade2bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:04 +0000
Subject: [PATCH 056/104] fix: XML parser dropped an & that does not start an
 entity

---
 src/gearxml/tinyxmlparser.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gearxml/tinyxmlparser.cc b/src/gearxml/tinyxmlparser.cc
index bfbf6a3..9171525 100644
--- a/src/gearxml/tinyxmlparser.cc
+++ b/src/gearxml/tinyxmlparser.cc
@@ -527,6 +527,7 @@ const char* TiXmlBase::GetEntity( const char* p, char* value, int* length, TiXml
 
 	// So it wasn't an entity, its unrecognized, or something like that.
 	*value = *p;	// Don't put back the last one, since we return it!
+	*length = 1;
 	return p+1;
 }
 
-- 
2.43.0


From c7ce69cf952384c3c7a9e6e84d15adc919ac2a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:04 +0000
Subject: [PATCH 057/104] fix: XML parser replaced entities in comments

---
 src/gearxml/tinyxmlparser.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/gearxml/tinyxmlparser.cc b/src/gearxml/tinyxmlparser.cc
index 9171525..f2774dc 100644
--- a/src/gearxml/tinyxmlparser.cc
+++ b/src/gearxml/tinyxmlparser.cc
@@ -1325,8 +1325,17 @@ const char* TiXmlComment::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 		return 0;
 	}
 	p += strlen( startTag );
-	p = ReadText( p, &value, false, endTag, false, encoding );
-	return p;
+
+	// The text of a comment is kept as it is, there are no entities in comments.
+	while (	p && *p && !StringEqual( p, endTag, false, encoding ) )
+	{
+		value += *p;
+		++p;
+	}
+	// Never step past the terminating null of an unterminated comment.
+	if ( p && *p )
+		p += strlen( endTag );
+	return ( p && *p ) ? p : 0;
 }
 
 
-- 
2.43.0


From c6efaa1364a4aaa1bcc73537d0aacb9969226bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:12 +0000
Subject: [PATCH 058/104] fix: XML parser accepted a document cut off after the
 start tag of an element

---
 src/gearxml/tinyxmlparser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gearxml/tinyxmlparser.cc b/src/gearxml/tinyxmlparser.cc
index f2774dc..994e3e0 100644
--- a/src/gearxml/tinyxmlparser.cc
+++ b/src/gearxml/tinyxmlparser.cc
@@ -1095,7 +1095,11 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 			++p;
 			p = ReadValue( p, data, encoding );		// Note this is an Element method, and will set the error if one happens.
 			if ( !p || !*p )
+			{
+				// We were looking for the end tag, but found nothing.
+				if ( document ) document->SetError( TIXML_ERROR_READING_END_TAG, p, data, encoding );
 				return 0;
+			}
 
 			// We should find the end tag now
 			if ( StringEqual( p, endTag.c_str(), false, encoding ) )
-- 
2.43.0


From 8d0d8696856df45f544aae5ee14e6800aad47eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:22 +0000
Subject: [PATCH 059/104] fix: MergeXML refused files with repeated comments

---
 src/gearxml/MergeXML.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gearxml/MergeXML.cc b/src/gearxml/MergeXML.cc
index 4e0f463..1342078 100644
--- a/src/gearxml/MergeXML.cc
+++ b/src/gearxml/MergeXML.cc
@@ -129,7 +129,8 @@ namespace gear{
 	//std::cout << " counter in rec: " << countRec << "   counter in dom: " << countDom << std::endl ;
 
 	// if multiple occurences and number does not match throw
-	if ( ((countRec > 1) || (countDom >1)) &&  ( countDom != countRec ) ) {
+	// (comments and text may be repeated as often as they like)
+	if ( loopNode->ToElement() && ((countRec > 1) || (countDom >1)) &&  ( countDom != countRec ) ) {
 
 	    // throw 
 	  std::stringstream s ;
-- 
2.43.0


From fc3f6efdc06acf118fd69ccb19063d3e1b8a7502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:48 +0000
Subject: [PATCH 060/104] fix: a wrong row description of a
 RectangularPadRowLayout in an XML file aborted the program

---
 src/gearimpl/RectangularPadRowLayout.cc | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index bee5d2b..807cb96 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -63,13 +63,9 @@ namespace gear {
     
 
     // a few sanity checks:
-    assert( nRow > 0 ) ;
-    assert( nPad > 0 ) ;
-    assert( ! ( padWidth < 0. )  ) ;
-    assert( ! ( padHeight < 0. )  ) ;
-    assert( ! ( rowHeight < 0. )  ) ;
-    assert( ! ( leftOffset < 0. )  ) ;
-    assert( ! ( rightOffset < 0. )  ) ;
+    if( nRow < 1 || nPad < 1 || padWidth < 0. || padHeight < 0. || rowHeight < 0. || leftOffset < 0. || rightOffset < 0. ) {
+      throw Exception( "RectangularPadRowLayout::addRow: number of rows and pads must be positive, sizes and offsets must not be negative" ) ;
+    }
 
 
     double xMin = _extent[0] + leftOffset ;
-- 
2.43.0


From bbbe7f1543eeacd9e6c99cbfd2600b903a008551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:35 +0000
Subject: [PATCH 061/104] fix: FixedPadSizeDiskLayout with rMax below rMin
 threw std::length_error instead of a gear exception

---
 src/gearimpl/FixedPadSizeDiskLayout.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/gearimpl/FixedPadSizeDiskLayout.cc b/src/gearimpl/FixedPadSizeDiskLayout.cc
index be6ae8d..b589531 100644
--- a/src/gearimpl/FixedPadSizeDiskLayout.cc
+++ b/src/gearimpl/FixedPadSizeDiskLayout.cc
@@ -67,6 +67,17 @@ namespace gear {
     //int nr = (int) ( ( rMax - rMin ) /  _padHeight ) ;
     int nr = ( ( rMax + 0.01  - rMin ) /  _padHeight ) ;
 
+    if( nr < 0 ) {
+
+      std::stringstream s ;
+      s << " FixedPadSizeDiskLayout: cannot place rows"
+	<< " - rMin: " << rMin
+	<< " - rMax: " << rMax
+	<< " - padHeight: " << _padHeight ;
+
+      throw ParseException( s.str() ) ;
+    }
+
     _nRow = ( nRow > 0 ) ? nRow : nr ;
 
     if( nRow > nr ) {
-- 
2.43.0


From 60329745b59de76f5b005f3cef269627de310749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:05 +0000
Subject: [PATCH 062/104] fix: FixedPadAngleDiskLayout with a negative number
 of rows threw std::length_error instead of a gear exception

---
 src/gearimpl/FixedPadAngleDiskLayout.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gearimpl/FixedPadAngleDiskLayout.cc b/src/gearimpl/FixedPadAngleDiskLayout.cc
index 39c83b5..4dba431 100644
--- a/src/gearimpl/FixedPadAngleDiskLayout.cc
+++ b/src/gearimpl/FixedPadAngleDiskLayout.cc
@@ -35,6 +35,9 @@ namespace gear {
 	  _nPadsInRow( nPadsInRow ) 
   {
     
+    if( nRow < 0 || nPadsInRow < 0 )
+      throw ParseException( " FixedPadAngleDiskLayout: negative number of rows or pads" ) ;
+
     _rowHeight =  ( rMax - rMin ) / _nRow ;
     _padAngle  =  (phiMax - phiMin) / nPadsInRow;
 
-- 
2.43.0


From 4935b1aa43cc301ea6ff7e3fe209137d75266a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:47 +0000
Subject: [PATCH 063/104] fix: extent of a rotated full circle TPC module could
 collapse to a single angle

---
 src/gearimpl/TPCModuleImpl.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index 7db3ae8..45c42c8 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -479,13 +479,16 @@ namespace gear {
 	      phiMax = M_PI - localExtent[2] - _angle;
 	    }
 
+	    // the covered angle, not more than a full circle
+	    double phiWidth = phiMax - phiMin;
+	    if (phiWidth > 2*M_PI)  phiWidth = 2*M_PI;
+
 	    // force phiMax to 0 .. 2*M_PI
 	    while (phiMax > 2*M_PI)  phiMax -= 2*M_PI;
 	    while (phiMax <  0     )  phiMax += 2*M_PI;
 	    
-	    // force phiMin to be smaller than phiMax, but max 
-	    while ( phiMin > phiMax          )  phiMin -= 2*M_PI;
-	    while ( phiMin < phiMax - 2*M_PI )  phiMin += 2*M_PI;
+	    // keep the covered angle (wrapping phiMin separately can turn a full circle into nothing)
+	    phiMin = phiMax - phiWidth;
 
 	    std::vector<double> globalExtent;
 	    globalExtent.push_back(localExtent[0]);
-- 
2.43.0


From 1a7eda57767330f8abb228195362bcc74a9b2afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:13 +0000
Subject: [PATCH 064/104] fix: extent in a cartesian TPC of modules with polar
 pads beyond phi = 2 pi was too small

---
 src/gearimpl/TPCModuleImpl.cc | 42 ++++++++++-------------------------
 1 file changed, 12 insertions(+), 30 deletions(-)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index 45c42c8..74cdf2a 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -381,15 +381,10 @@ namespace gear {
 	Vector2D localOriginInGlobalCoordinates = localToGlobal( 0 , 0 );
 	double testYMax = localOriginInGlobalCoordinates[1] + localExtent[1]; // module centre + rMax
 	double localPhi1 = globalToLocal( localOriginInGlobalCoordinates[0], testYMax )[1];
-	// test for [0:2pi] and [-2pi:0]
-	double localPhi2 ;
-	if ( localPhi1 < 0 )
-	    localPhi2 = localPhi1 + 2*M_PI;
-	else
-	    localPhi2 = localPhi1 - 2*M_PI;
+	// wrap to the range starting at phiMin of the module
+	localPhi1 -= 2*M_PI * std::floor( ( localPhi1 - localExtent[2] ) / ( 2*M_PI ) );
 	// change yMax if necessary
-	if (  ( (localPhi1 > localExtent[2]) && (localPhi1 < localExtent[3]) ) ||
-	       ( (localPhi2 > localExtent[2]) && (localPhi2 < localExtent[3]) )    )
+	if ( localPhi1 < localExtent[3] )
 	{   // testYMax is in active sector, so it is automatically larger than the 
 	    // yMax of the edges
 	    yMax = testYMax;
@@ -401,16 +396,11 @@ namespace gear {
 	double testYMin = localOriginInGlobalCoordinates[1] - localExtent[1]; // module centre - rMax
 	localPhi1 = globalToLocal( localOriginInGlobalCoordinates[0], testYMin )[1];
 	// std::cout <<"#DEBUG localPhi1 for ymin "<< localPhi1<<std::endl;
-	// test for [0:2pi] and [-2pi:0]
-	if ( localPhi1 < 0 )
-	    localPhi2 = localPhi1 + 2*M_PI;
-	else
-	    localPhi2 = localPhi1 - 2*M_PI;
-	//std::cout <<"#DEBUG localPhi2 for ymin "<< localPhi2<<std::endl;
+	// wrap to the range starting at phiMin of the module
+	localPhi1 -= 2*M_PI * std::floor( ( localPhi1 - localExtent[2] ) / ( 2*M_PI ) );
 
 	// change yMin if necessary
-	if (  ( (localPhi1 > localExtent[2]) && (localPhi1 < localExtent[3]) ) ||
-	       ( (localPhi2 > localExtent[2]) && (localPhi2 < localExtent[3]) )    )
+	if ( localPhi1 < localExtent[3] )
 	{   // testYMin is in active sector, so it is automatically larger than the 
 	    // yMax of the edges
 	    yMin = testYMin;
@@ -419,14 +409,10 @@ namespace gear {
 	// test tho possible new xMax
 	double testXMax = localOriginInGlobalCoordinates[0] + localExtent[1]; // module centre + rMax
 	localPhi1 = globalToLocal( testXMax, localOriginInGlobalCoordinates[1] )[1];
-	// test for [0:2pi] and [-2pi:0]
-	if ( localPhi1 < 0 )
-	    localPhi2 = localPhi1 + 2*M_PI;
-	else
-	    localPhi2 = localPhi1 - 2*M_PI;
+	// wrap to the range starting at phiMin of the module
+	localPhi1 -= 2*M_PI * std::floor( ( localPhi1 - localExtent[2] ) / ( 2*M_PI ) );
 	// change yMax if necessary
-	if (  ( (localPhi1 > localExtent[2]) && (localPhi1 < localExtent[3]) ) ||
-	       ( (localPhi2 > localExtent[2]) && (localPhi2 < localExtent[3]) )    )
+	if ( localPhi1 < localExtent[3] )
 	{   // testXMax is in active sector, so it is automatically larger than the 
 	    // yMax of the edges
 	    xMax = testXMax;
@@ -435,14 +421,10 @@ namespace gear {
 	// test the possible new xMin
 	double testXMin = localOriginInGlobalCoordinates[0] - localExtent[1]; // module centre - rMax
 	localPhi1 = globalToLocal( testXMin, localOriginInGlobalCoordinates[1] )[1];
-	// test for [0:2pi] and [-2pi:0]
-	if ( localPhi1 < 0 )
-	    localPhi2 = localPhi1 + 2*M_PI;
-	else
-	    localPhi2 = localPhi1 - 2*M_PI;
+	// wrap to the range starting at phiMin of the module
+	localPhi1 -= 2*M_PI * std::floor( ( localPhi1 - localExtent[2] ) / ( 2*M_PI ) );
 	// change yMax if necessary
-	if (  ( (localPhi1 > localExtent[2]) && (localPhi1 < localExtent[3]) ) ||
-	       ( (localPhi2 > localExtent[2]) && (localPhi2 < localExtent[3]) )    )
+	if ( localPhi1 < localExtent[3] )
 	{   // testYMax is in active sector, so it is automatically larger than the 
 	    // yMax of the edges
 	    xMin = testXMin;
-- 
2.43.0


From 19916e2d90835aa7c9943d50a8518f93f665cd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:44 +0000
Subject: [PATCH 065/104] fix: extent in a polar TPC of displaced modules with
 pads beyond phi = 2 pi was too small

---
 src/gearimpl/TPCModuleImpl.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index 74cdf2a..14548af 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -487,6 +487,11 @@ namespace gear {
 	    // the global and the local origins. rMin is in the direction of the global origin,
 	    // rMax is in the oposite direction
 
+	    // the tests below expect phiMax in 0 .. 2*M_PI
+	    double phiShift = 2*M_PI * ( std::ceil( localExtent[3] / ( 2*M_PI ) ) - 1. );
+	    localExtent[2] -= phiShift;
+	    localExtent[3] -= phiShift;
+
 	    // Get coordinates of global origin in local coordinates
 	    Vector2D globalOriginInLocal = globalToLocal( 0 , 0 );
 
-- 
2.43.0


From baf56f9a43fff3654c432c803b7e6fd75232a9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:32 +0000
Subject: [PATCH 066/104] fix: GearMgrImpl leaked parameters that were replaced
 and freed TPC and generic parameters that were set twice

---
 src/gearimpl/GearMgrImpl.cc | 60 ++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/src/gearimpl/GearMgrImpl.cc b/src/gearimpl/GearMgrImpl.cc
index d7cb6a2..fc864ac 100644
--- a/src/gearimpl/GearMgrImpl.cc
+++ b/src/gearimpl/GearMgrImpl.cc
@@ -24,6 +24,16 @@
 
 namespace gear{
 
+  /// Take over newObject instead of object, which is deleted
+  template <class T>
+  static void replace( T*& object, T* newObject ) {
+
+    if( object != newObject )
+      delete object ;
+
+    object = newObject ;
+  }
+
 
   GearMgrImpl::GearMgrImpl() :
     _tpcParameters(0) ,
@@ -392,8 +402,7 @@ namespace gear{
 
     if( it != _map.end() ) {
       
-      delete it->second ;
-      it->second = parameters ;
+      replace( it->second , parameters ) ;
       
     } else {
       
@@ -406,59 +415,56 @@ namespace gear{
   
   void GearMgrImpl::setTPCParameters( TPCParameters* tpcParameters ) {
     
-    if(  _tpcParameters ) 
-      delete _tpcParameters ;
-
-    _tpcParameters = tpcParameters ;
+    replace( _tpcParameters , tpcParameters ) ;
   }
 
   void GearMgrImpl::setBField( BField* b){
     
-    _bField = b ;
+    replace( _bField , b ) ;
   }
 
   void GearMgrImpl::setEcalBarrelParameters( CalorimeterParameters* ecalBarrelParameters ) {
     
-    _ecalBarrelParameters = ecalBarrelParameters ;
+    replace( _ecalBarrelParameters , ecalBarrelParameters ) ;
   }
   void GearMgrImpl::setEcalEndcapParameters( CalorimeterParameters* ecalEndcapParameters ) {
     
-    _ecalEndcapParameters = ecalEndcapParameters ;
+    replace( _ecalEndcapParameters , ecalEndcapParameters ) ;
   }
 
   void GearMgrImpl::setEcalPlugParameters( CalorimeterParameters* ecalPlugParameters ) {
     
-    _ecalPlugParameters = ecalPlugParameters ;
+    replace( _ecalPlugParameters , ecalPlugParameters ) ;
   }
 
   void GearMgrImpl::setYokeBarrelParameters( CalorimeterParameters* yokeBarrelParameters ) {
     
-    _yokeBarrelParameters = yokeBarrelParameters ;
+    replace( _yokeBarrelParameters , yokeBarrelParameters ) ;
   }
   void GearMgrImpl::setYokeEndcapParameters( CalorimeterParameters* yokeEndcapParameters ) {
     
-    _yokeEndcapParameters = yokeEndcapParameters ;
+    replace( _yokeEndcapParameters , yokeEndcapParameters ) ;
   }
 
   void GearMgrImpl::setYokePlugParameters( CalorimeterParameters* yokePlugParameters ) {
     
-    _yokePlugParameters = yokePlugParameters ;
+    replace( _yokePlugParameters , yokePlugParameters ) ;
   }
 
 
   void GearMgrImpl::setHcalBarrelParameters( CalorimeterParameters* hcalBarrelParameters ) {
     
-    _hcalBarrelParameters = hcalBarrelParameters ;
+    replace( _hcalBarrelParameters , hcalBarrelParameters ) ;
   }
 
   void GearMgrImpl::setHcalEndcapParameters( CalorimeterParameters* hcalEndcapParameters ) {
 
-    _hcalEndcapParameters = hcalEndcapParameters ;
+    replace( _hcalEndcapParameters , hcalEndcapParameters ) ;
   }
 
   void GearMgrImpl::setHcalRingParameters( CalorimeterParameters* hcalRingParameters ) {
 
-    _hcalRingParameters = hcalRingParameters ;
+    replace( _hcalRingParameters , hcalRingParameters ) ;
   }
 
   void GearMgrImpl::setLcalParameters( CalorimeterParameters* lcalParameters ) {
@@ -479,7 +485,7 @@ namespace gear{
 	gp->setDoubleVal("beam_crossing_angle", 0.0 ) ;
 
     }
-    _lcalParameters = lcalParameters ;
+    replace( _lcalParameters , lcalParameters ) ;
   }
 
   void GearMgrImpl::setLHcalParameters( CalorimeterParameters* lhcalParameters ) {
@@ -500,7 +506,7 @@ namespace gear{
 	gp->setDoubleVal("beam_crossing_angle", 0.0 ) ;
 
     }
-    _lhcalParameters = lhcalParameters ;
+    replace( _lhcalParameters , lhcalParameters ) ;
   }
 
   void GearMgrImpl::setBeamCalParameters( CalorimeterParameters* beamcalParameters ) {
@@ -521,47 +527,47 @@ namespace gear{
 	gp->setDoubleVal("beam_crossing_angle", 0.0 ) ;
 
     }
-    _beamcalParameters = beamcalParameters ;
+    replace( _beamcalParameters , beamcalParameters ) ;
   }
 
   void GearMgrImpl::setVXDParameters( ZPlanarParameters* vxdParameters ) {
 
-    _vxdParameters = vxdParameters ;
+    replace( _vxdParameters , vxdParameters ) ;
   }
 
   void GearMgrImpl::setFTDParameters( FTDParameters* ftdParameters ) {
     
-    _ftdParameters = ftdParameters ;
+    replace( _ftdParameters , ftdParameters ) ;
   }
   
   void GearMgrImpl::setSITParameters( ZPlanarParameters* sitParameters ) {
     
-    _sitParameters = sitParameters ;
+    replace( _sitParameters , sitParameters ) ;
   }
 
   void GearMgrImpl::setSETParameters( ZPlanarParameters* setParameters ) {
 
-    _setParameters = setParameters ;
+    replace( _setParameters , setParameters ) ;
   }
 
   void GearMgrImpl::setTrackerPlanesParameters( TrackerPlanesParameters* trackerplanesParameters ) {
 
-    _trackerplanesParameters = trackerplanesParameters ;
+    replace( _trackerplanesParameters , trackerplanesParameters ) ;
   }
 
   void GearMgrImpl::setSiPlanesParameters( SiPlanesParameters* siplanesParameters ) {
 
-    _siplanesParameters = siplanesParameters ;
+    replace( _siplanesParameters , siplanesParameters ) ;
   }
 
   void GearMgrImpl::setPointProperties( GearPointProperties* pointProperties) {
     
-    _pointProperties = pointProperties ;
+    replace( _pointProperties , pointProperties ) ;
   }
 
   void GearMgrImpl::setDistanceProperties( GearDistanceProperties* distanceProperties) {
  
-   _distanceProperties = distanceProperties ;
+   replace( _distanceProperties , distanceProperties ) ;
   }
   
   const std::vector<std::string>& GearMgrImpl::getGearParameterKeys() const {
-- 
2.43.0


From 6e5d37be07034a5005c76ba735575ca473456666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:59 +0000
Subject: [PATCH 067/104] fix: MeasurementSurfaceStore never deleted its
 surfaces

---
 include/gear/gearsurf/MeasurementSurfaceStore.h |  6 ++++--
 src/gearsurf/MeasurementSurfaceStore.cc         | 15 +++------------
 2 files changed, 7 insertions(+), 14 deletions(-)

diff --git a/include/gear/gearsurf/MeasurementSurfaceStore.h b/include/gear/gearsurf/MeasurementSurfaceStore.h
index 567272c..88d8edc 100644
--- a/include/gear/gearsurf/MeasurementSurfaceStore.h
+++ b/include/gear/gearsurf/MeasurementSurfaceStore.h
@@ -7,6 +7,7 @@
  */
 
 #include <map>
+#include <memory>
 #include <vector>
 #include <iostream>
 
@@ -50,9 +51,10 @@ namespace gear{
     void addMeasurementSurface(MeasurementSurface* ms); 
     
     // private member variables
-    std::map<int,MeasurementSurface* > _measurement_surface_map{};
+    // the surfaces are owned by the store and its copies
+    std::map<int, std::shared_ptr<MeasurementSurface> > _measurement_surface_map{};
     
-    typedef std::map<int, MeasurementSurface*>::const_iterator ms_map_it ; 
+    typedef std::map<int, std::shared_ptr<MeasurementSurface> >::const_iterator ms_map_it ; 
     
     bool _store_filled{};
   
diff --git a/src/gearsurf/MeasurementSurfaceStore.cc b/src/gearsurf/MeasurementSurfaceStore.cc
index 691c128..c33bada 100644
--- a/src/gearsurf/MeasurementSurfaceStore.cc
+++ b/src/gearsurf/MeasurementSurfaceStore.cc
@@ -29,16 +29,7 @@ namespace gear{
   
   
   MeasurementSurfaceStore::~MeasurementSurfaceStore(){
-    
-    ms_map_it it = _measurement_surface_map.begin();
-    std::vector<MeasurementSurface*> deleted_objects;
-    
-    for( /**/; it!=_measurement_surface_map.end(); ++it) 
-      
-      if( std::find( deleted_objects.begin(), deleted_objects.end(), (*it).second ) != deleted_objects.end() ) {
-        delete (*it).second ;
-        deleted_objects.push_back((*it).second) ;
-      }
+    // the surfaces are deleted together with the last store that holds them
   }
   
   MeasurementSurface const* MeasurementSurfaceStore::GetMeasurementSurface(int ID) const {
@@ -54,7 +45,7 @@ namespace gear{
       throw exp ; 
     } 
     else { 
-      return (*it).second ; 
+      return (*it).second.get() ; 
     }
     
   }
@@ -76,7 +67,7 @@ namespace gear{
       
     } 
     else { 
-      _measurement_surface_map[ID] = ms  ; 
+      _measurement_surface_map[ID].reset( ms ) ; 
     }
   }
   
-- 
2.43.0


From 104bfc04a03d9b9ef938e2227150ae20fe74cea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:50 +0000
Subject: [PATCH 068/104] fix: points in ladders of planar trackers were missed
 for phi0 outside [0,2pi]

---
 src/gearimpl/ZPlanarParametersImpl.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gearimpl/ZPlanarParametersImpl.cc b/src/gearimpl/ZPlanarParametersImpl.cc
index ce5d268..c5f4f0a 100644
--- a/src/gearimpl/ZPlanarParametersImpl.cc
+++ b/src/gearimpl/ZPlanarParametersImpl.cc
@@ -814,11 +814,11 @@ namespace gear{
   
   double ZPlanarParametersImpl::correctPhiRange( double Phi ) const {
     
-    if( Phi > M_PI ) {
-      return ( Phi - 2 * M_PI ) ;
+    while( Phi > M_PI ) {
+      Phi -= 2 * M_PI ;
     }
-    if( Phi <= -M_PI ) {
-      return ( Phi + 2 * M_PI ) ;
+    while( Phi <= -M_PI ) {
+      Phi += 2 * M_PI ;
     } 
     
     return Phi ;
-- 
2.43.0


From 8e304f15b1103e9b49372bf9b362f36540dc4d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:50 +0000
Subject: [PATCH 069/104] fix: azimuth angle of points on the negative y-axis
 was wrong in planar trackers

---
 src/gearimpl/ZPlanarParametersImpl.cc | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/src/gearimpl/ZPlanarParametersImpl.cc b/src/gearimpl/ZPlanarParametersImpl.cc
index c5f4f0a..b0fa535 100644
--- a/src/gearimpl/ZPlanarParametersImpl.cc
+++ b/src/gearimpl/ZPlanarParametersImpl.cc
@@ -828,29 +828,11 @@ namespace gear{
 
   double ZPlanarParametersImpl::getPhiPoint( Vector3D p ) const {
 
-    //FG: this is the the angle with the negative y-axis 
+    //FG: this is the the angle with the y-axis (negative orientation)
     // see comment at the top !
 
     // get phi of point in projection 2D
-    double pPhi = 0. ;
-    if( ( p[0] >= 0 ) && ( p[1] == 0 ) )
-      pPhi = -M_PI/2 ;
-    
-    if( ( p[0] < 0 ) && ( p[1] == 0 ) )
-      pPhi = M_PI/2 ;
-    
-    if( ( p[0] == 0 ) && ( p[1] < 0 ) ) 
-      pPhi = 0 ;
-    
-    if( ( p[0] != 0 ) && ( p[1] < 0 ) )
-      pPhi = atan( p[0] / p[1] ) + M_PI ;
-    
-    else
-      pPhi = atan( p[0] / p[1] ) ;
-    
-    pPhi = correctPhiRange( pPhi ) ;  
-    
-    return pPhi ;
+    return correctPhiRange( atan2( p[0] , p[1] ) ) ;
     
   } // function getPhiPoint
 
-- 
2.43.0


From 5a7ff5449163a65c1e057db1edcac1c22f49fa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:50 +0000
Subject: [PATCH 070/104] fix: points in ladders with an offset above half the
 width were missed, ladder and sensitive swapped in outer phi range

---
 src/gearimpl/ZPlanarLayerLayout.cc    | 4 ++--
 src/gearimpl/ZPlanarParametersImpl.cc | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/gearimpl/ZPlanarLayerLayout.cc b/src/gearimpl/ZPlanarLayerLayout.cc
index 2be0227..495e3e3 100644
--- a/src/gearimpl/ZPlanarLayerLayout.cc
+++ b/src/gearimpl/ZPlanarLayerLayout.cc
@@ -95,7 +95,7 @@ namespace gear{
   double ZPlanarLayerLayoutImpl::getStartOuterPhi( int layerIndex , bool sensitive ) const 
   {
     Layer l ;
-    if (sensitive) {
+    if (!sensitive) {
       l = _lVec.at( layerIndex ) ;
     }
     else {
@@ -108,7 +108,7 @@ namespace gear{
   double ZPlanarLayerLayoutImpl::getEndOuterPhi( int layerIndex , bool sensitive ) const 
   {
     Layer l ;
-    if (sensitive) {
+    if (!sensitive) {
       l = _lVec.at( layerIndex ) ;
     }
     else {
diff --git a/src/gearimpl/ZPlanarParametersImpl.cc b/src/gearimpl/ZPlanarParametersImpl.cc
index b0fa535..1aa6076 100644
--- a/src/gearimpl/ZPlanarParametersImpl.cc
+++ b/src/gearimpl/ZPlanarParametersImpl.cc
@@ -1,5 +1,6 @@
 #include "gearimpl/ZPlanarParametersImpl.h"
 #include <math.h>
+#include <algorithm>
 #include <iostream>
 
 #define _EPSILON 0.0001
@@ -93,8 +94,9 @@ namespace gear{
       
       // find out delta phi between each ladder
       double deltaPhi = ( 2 * M_PI ) / _layer.getNLadders( possibleLayer ) ;
-      double startPhi = _layer.getStartInnerPhi( possibleLayer , sensitive ) ;
-      double endPhi = _layer.getEndInnerPhi( possibleLayer , sensitive ) ;
+      // (the outer side reaches further than the inner one if the offset is larger than half the width)
+      double startPhi = std::min( _layer.getStartInnerPhi( possibleLayer , sensitive ) , _layer.getStartOuterPhi( possibleLayer , sensitive ) ) ;
+      double endPhi = std::max( _layer.getEndInnerPhi( possibleLayer , sensitive ) , _layer.getEndOuterPhi( possibleLayer , sensitive ) ) ;
 
       // go through all ladders/sensitive
       int nLadders = _layer.getNLadders( possibleLayer ) ;
-- 
2.43.0


From 03a2a2d781cd2de50800f27c4f0a18ee677ac564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:50 +0000
Subject: [PATCH 071/104] fix: distance to nearest ladder ignored the nearest
 one for points on the z-axis, less than three ladders and large offsets

---
 src/gearimpl/ZPlanarParametersImpl.cc | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/src/gearimpl/ZPlanarParametersImpl.cc b/src/gearimpl/ZPlanarParametersImpl.cc
index 1aa6076..10aced4 100644
--- a/src/gearimpl/ZPlanarParametersImpl.cc
+++ b/src/gearimpl/ZPlanarParametersImpl.cc
@@ -221,8 +221,6 @@ namespace gear{
     //  it can also probably be made a bit faster ...
 
 
-    double pPhi = getPhiPoint( p ) ;
-
     // this Point is solution
     Vector3D vPointPlane ;
     double minDistance = 99999.99 ;
@@ -258,21 +256,6 @@ namespace gear{
 	double phi = _layer.getInternalPhi0( nearestLayer ) + i*deltaPhi ;
 	phi = correctPhiRange( phi ) ;
 
-	// check start and end phi for this layer
-	double sPhi = correctPhiRange( phi - deltaPhi ) ;
-	double ePhi = correctPhiRange( phi + deltaPhi ) ;
-			
-	// check if point is in range of ladder
-	bool isInRange = 
-	  ( ( sPhi <= pPhi )  && ( pPhi <= ePhi ) )
-	  ||( ( sPhi > ePhi ) && ( pPhi <= ePhi ) )
-	  ||( ( sPhi > ePhi ) && ( pPhi >= sPhi ) ) ;
-	
-	if ( !isInRange ) {
-	  
-	  continue ;
-	}
-	
 	// take normal vector of planes, Base, Side, Z and spacePoint
 //fg: ------- test vector3d ---------------------------
 // 	Vector3D nBase, nSide, nZ ;
-- 
2.43.0


From fe9b3cbc87c988216a601bfb4b1730b9fdd165e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:50 +0000
Subject: [PATCH 072/104] fix: vector from the origin to the nearest ladder had
 the wrong direction

---
 src/gearimpl/ZPlanarParametersImpl.cc | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/src/gearimpl/ZPlanarParametersImpl.cc b/src/gearimpl/ZPlanarParametersImpl.cc
index 10aced4..efd5d04 100644
--- a/src/gearimpl/ZPlanarParametersImpl.cc
+++ b/src/gearimpl/ZPlanarParametersImpl.cc
@@ -203,20 +203,6 @@ namespace gear{
       return origin ;
     }
     
-    // check if point is origin
-
-    if( origin.x() == p.x() &&  origin.y() == p.y() && origin.z() == p.z()  ) {
-
-       if( _layer.getNLayers() > 0 ){
-
- 	// simply use first ladder - distance d , phi0 , gap/2  :
-	 //fg: fixme: review definition of phi...
- 	return Vector3D( _layer.getLadderDistance(0) ,  -_layer.getInternalPhi0(0)  , _shellGap/2  , Vector3D::cylindrical ) ;
-       }
-
-       return origin ;
-    }
-
     //fg:  FIXME: this code needs to be cleaned up and checked 
     //  it can also probably be made a bit faster ...
 
-- 
2.43.0


From c8835beec4eb89336bd6f741c6e0064d5fe86cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:51 +0000
Subject: [PATCH 073/104] fix: lines never crossed ladders at negative z

---
 src/gearimpl/ZPlanarParametersImpl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/ZPlanarParametersImpl.cc b/src/gearimpl/ZPlanarParametersImpl.cc
index efd5d04..4bf961e 100644
--- a/src/gearimpl/ZPlanarParametersImpl.cc
+++ b/src/gearimpl/ZPlanarParametersImpl.cc
@@ -440,8 +440,8 @@ namespace gear{
 	  zStart = _shellGap /2 ;
 	}
 	else {
-	  zEnd = - zEnd ;
-	  zStart = - _shellGap/2 ;
+	  zStart = - zEnd ;
+	  zEnd = - _shellGap/2 ;
 	}
 
 	// go through all ladders/sensitive
-- 
2.43.0


From d20116160616f6dbc3ad3e7fbe937ede88112cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:51 +0000
Subject: [PATCH 074/104] fix: lines missing the plane of a ladder were taken
 to cross it at the origin

---
 src/gearimpl/ZPlanarParametersImpl.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/gearimpl/ZPlanarParametersImpl.cc b/src/gearimpl/ZPlanarParametersImpl.cc
index 4bf961e..5816ed6 100644
--- a/src/gearimpl/ZPlanarParametersImpl.cc
+++ b/src/gearimpl/ZPlanarParametersImpl.cc
@@ -490,6 +490,9 @@ namespace gear{
 	    // get intersection point plane/line	    
 	    Vector3D interSection = planeLineIntersection( r, nBase, p, v ) ;
 
+	    // no intersection with this plane
+	    if ( isEqual( interSection , Vector3D( 0. , 0. , 0. ) ) ) continue ;
+
 	    // get vector from point to intersection point
 	    Vector3D vip ;
 	    vip[0] = interSection[0] - p[0] ;
@@ -546,6 +549,9 @@ namespace gear{
 
 	    // get intersection point plane/line
 	    Vector3D interSection = planeLineIntersection( r, nSide, p, v ) ;
+
+	    // no intersection with this plane
+	    if ( isEqual( interSection , Vector3D( 0. , 0. , 0. ) ) ) continue ;
 	     
 	    // get vector from point to intersection point
 	    Vector3D vip ;
@@ -597,6 +603,9 @@ namespace gear{
 	    
 	    // get intersection point plane/line
 	    Vector3D interSection = planeLineIntersection( r, nZ, p, v ) ;
+
+	    // no intersection with this plane
+	    if ( isEqual( interSection , Vector3D( 0. , 0. , 0. ) ) ) continue ;
 	    
 	    // get vector from point to intersection point
 	    Vector3D vip ;
-- 
2.43.0


From 92efcd9ef4d94dd677bd3b9c94efb4a187e6e2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:21 +0000
Subject: [PATCH 075/104] fix: phi range of planar trackers for any phi0

---
 src/gearimpl/ZPlanarParametersImpl.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/gearimpl/ZPlanarParametersImpl.cc b/src/gearimpl/ZPlanarParametersImpl.cc
index 5816ed6..50203a4 100644
--- a/src/gearimpl/ZPlanarParametersImpl.cc
+++ b/src/gearimpl/ZPlanarParametersImpl.cc
@@ -794,11 +794,10 @@ namespace gear{
   
   double ZPlanarParametersImpl::correctPhiRange( double Phi ) const {
     
-    while( Phi > M_PI ) {
-      Phi -= 2 * M_PI ;
-    }
-    while( Phi <= -M_PI ) {
-      Phi += 2 * M_PI ;
+    Phi = remainder( Phi , 2 * M_PI ) ;
+
+    if( Phi <= -M_PI ) {
+      return ( Phi + 2 * M_PI ) ;
     } 
     
     return Phi ;
-- 
2.43.0


From 276070c9d9e4e6c5cc613c6db5bbf03468c21253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:08 +0000
Subject: [PATCH 076/104] fix: a negative row repetition in an XML file added
 rows until the memory was used up

---
 src/gearxml/RectangularPadRowLayoutXML.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gearxml/RectangularPadRowLayoutXML.cc b/src/gearxml/RectangularPadRowLayoutXML.cc
index 167be26..d546a84 100644
--- a/src/gearxml/RectangularPadRowLayoutXML.cc
+++ b/src/gearxml/RectangularPadRowLayoutXML.cc
@@ -82,6 +82,9 @@ namespace gear {
     
     int repeatRowCount = atoi(  getOptionalXMLAttribute( xmlElement , "repeatRows" , "1" ) .c_str() ) ;
     
+    if( repeatRowCount < 0 )
+      throw ParseException( "RectangularPadRowLayoutXML: negative number of row repetitions" ) ;
+
     RectangularPadRowLayout* padRowLayout = new RectangularPadRowLayout( xMin, xMax, yMin ) ;
 
     // ----- rows ------------
-- 
2.43.0


From c0fade773da9bfa45ab6980beb99bb25746357cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:08 +0000
Subject: [PATCH 077/104] fix: endless loop if a TPC pad layout or module has
 an infinite or huge azimuth

---
 src/gearimpl/FixedPadAngleDiskLayout.cc | 4 ++++
 src/gearimpl/FixedPadSizeDiskLayout.cc  | 4 ++++
 src/gearimpl/TPCModuleImpl.cc           | 8 ++++++++
 src/gearimpl/VersatileDiskRowLayout.cc  | 4 ++++
 4 files changed, 20 insertions(+)

diff --git a/src/gearimpl/FixedPadAngleDiskLayout.cc b/src/gearimpl/FixedPadAngleDiskLayout.cc
index 4dba431..9136484 100644
--- a/src/gearimpl/FixedPadAngleDiskLayout.cc
+++ b/src/gearimpl/FixedPadAngleDiskLayout.cc
@@ -38,6 +38,10 @@ namespace gear {
     if( nRow < 0 || nPadsInRow < 0 )
       throw ParseException( " FixedPadAngleDiskLayout: negative number of rows or pads" ) ;
 
+    // angles far beyond any real one (or infinite) cannot be reduced to one turn
+    if( !( std::fabs( phiMin ) < 1.e6 && std::fabs( phiMax ) < 1.e6 ) )
+      throw ParseException( " FixedPadAngleDiskLayout: phiMin or phiMax out of range" ) ;
+
     _rowHeight =  ( rMax - rMin ) / _nRow ;
     _padAngle  =  (phiMax - phiMin) / nPadsInRow;
 
diff --git a/src/gearimpl/FixedPadSizeDiskLayout.cc b/src/gearimpl/FixedPadSizeDiskLayout.cc
index b589531..384e222 100644
--- a/src/gearimpl/FixedPadSizeDiskLayout.cc
+++ b/src/gearimpl/FixedPadSizeDiskLayout.cc
@@ -49,6 +49,10 @@ namespace gear {
       throw ParseException( s.str() ) ;
     }
 
+    // angles far beyond any real one (or infinite) cannot be reduced to one turn
+    if( !( std::fabs( _phiMax ) < 1.e6 ) )
+      throw ParseException( " FixedPadSizeDiskLayout: phiMax out of range" ) ;
+
 	// wrap phi to +- 2*pi, which is the max range for phiMin and phiMax
     
 	while( _phiMax < -2.*M_PI ) {  _phiMax += 2. * M_PI  ; }
diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index 14548af..b4d9bee 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -1480,6 +1480,10 @@ namespace gear {
  
     void TPCModuleImpl::setOffset(double x_r, double y_phi)
     {
+	// angles far beyond any real one (or infinite) cannot be reduced to one turn
+	if ( _momsCoordinateType == PadRowLayout2D::POLAR && !( std::fabs( y_phi ) < 1.e6 ) )
+	    throw gear::Exception("TPCModuleImpl::setOffset: angle out of range");
+
 	_offset[0] = x_r;
 	_offset[1] = y_phi;
 
@@ -1519,6 +1523,10 @@ namespace gear {
 
     void TPCModuleImpl::setAngle(double angle)
     {
+	// angles far beyond any real one (or infinite) cannot be reduced to one turn
+	if ( !( std::fabs( angle ) < 1.e6 ) )
+	    throw gear::Exception("TPCModuleImpl::setAngle: angle out of range");
+
 	_angle= angle;
 	_cos_angle =  std::cos( angle );
 	_sin_angle =  std::sin( angle );
diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index 192203b..6be5910 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -351,6 +351,10 @@ VersatileDiskRowLayout::Row::Row(int rowNumber, int nPads, double rCentre, doubl
 {
     _offset   = _offset_mm / rCentre;
 
+    // angles far beyond any real one (or infinite) cannot be reduced to one turn
+    if ( !( std::fabs( _offset ) < 1.e6 ) )
+	throw Exception("gear::VersatileDiskRowLayout::addRow(): Error, offset out of range!");
+
     // wrap offset to +- 2*pi
     if (_offset < - 2. * M_PI)
     {
-- 
2.43.0


From 50e3327cf70f6fcfd8b6c3e3043a0cc2861ef777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:35 +0000
Subject: [PATCH 078/104] fix: endless loop if the border of a TPC module with
 polar pads is infinite or huge

---
 src/gearimpl/TPCModuleImpl.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index b4d9bee..62a7577 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -236,6 +236,10 @@ namespace gear {
 			phiMax = _padRowLayout->getPlaneExtent()[3] + phiBorder;
 		    }
 		    
+		    // angles far beyond any real one (or infinite) cannot be reduced to one turn
+		    if ( !( std::fabs( phiMin ) < 1.e6 && std::fabs( phiMax ) < 1.e6 ) )
+			throw gear::Exception("TPCModuleImpl: border width out of range");
+
 		    _localModuleExtent[2] = phiMin;
 		    _localModuleExtent[3] = phiMax;
 
-- 
2.43.0


From 0f97ad277f217eec0a6ff71d7fb95883be1f6f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:35 +0000
Subject: [PATCH 079/104] fix: FixedPadSizeDiskLayout overflowed for tiny pads

---
 src/gearimpl/FixedPadSizeDiskLayout.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/FixedPadSizeDiskLayout.cc b/src/gearimpl/FixedPadSizeDiskLayout.cc
index 384e222..8319ba7 100644
--- a/src/gearimpl/FixedPadSizeDiskLayout.cc
+++ b/src/gearimpl/FixedPadSizeDiskLayout.cc
@@ -69,7 +69,8 @@ namespace gear {
 
     //int nr = (int) std::floor ( ( rMax - rMin ) /  _padHeight ) ;
     //int nr = (int) ( ( rMax - rMin ) /  _padHeight ) ;
-    int nr = ( ( rMax + 0.01  - rMin ) /  _padHeight ) ;
+    double dr = ( rMax + 0.01  - rMin ) /  _padHeight ;
+    int nr = ( dr > -65536. && dr < 65536. ) ? dr : -1 ; // row numbers have 16 bits
 
     if( nr < 0 ) {
 
@@ -119,7 +120,12 @@ namespace gear {
 
       double u = row.RCenter * _phiMax  ;
 
-      row.NPad = static_cast<int>( std::floor( u / (_padWidth + padGap )  ) );
+      double nPad = std::floor( u / (_padWidth + padGap )  ) ;
+
+      if( !( nPad > -65536. && nPad < 65536. ) ) // pad numbers have 16 bits
+	throw ParseException( " FixedPadSizeDiskLayout: too many pads in a row" ) ;
+
+      row.NPad = static_cast<int>( nPad );
 
       row.PhiPad = _phiMax  / row.NPad ;
 
-- 
2.43.0


From 1c12b189fb11692d4f2c3335fe762648e7a0a075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:06 +0000
Subject: [PATCH 080/104] fix: module IDs counted from moduleIDStartCount
 overflowed

---
 src/gearxml/TPCParametersXML.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gearxml/TPCParametersXML.cc b/src/gearxml/TPCParametersXML.cc
index 1b6aaac..7017261 100644
--- a/src/gearxml/TPCParametersXML.cc
+++ b/src/gearxml/TPCParametersXML.cc
@@ -10,6 +10,7 @@
 //modulesElement
 #include "gear/PadRowLayout2D.h"
 
+#include <climits>
 #include <sstream>
 
 namespace gear {
@@ -201,6 +202,9 @@ namespace gear {
 		    continue;
 		}
 
+		if ( moduleIDStartCount > INT_MAX - moduleIDOffset )
+		    throw ParseException("TPCParametersXML::fromXML: moduleIDStartCount out of range") ;
+
 		// finaly create the module from the xml element and add it to the TPC
 		modularTPC->addModule (_tpcModuleXML.fromXML(moduleElement,
 							     defaultModuleElement, 
-- 
2.43.0


From 13ee8a017e2525378adfd110dbf0a3312e8452a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:45 +0000
Subject: [PATCH 081/104] fix: printing large values or long texts overran
 fixed size buffers

---
 .../gearimpl/TrackerPlanesLayerLayoutImpl.h   | 36 +++++++++++++-----
 src/gearimpl/Util.cc                          | 38 +++++++++++++++----
 2 files changed, 57 insertions(+), 17 deletions(-)

diff --git a/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h b/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h
index ed8e6b1..a7a7bb3 100644
--- a/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h
+++ b/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h
@@ -3,6 +3,9 @@
 #define GEAR_TrackerPlanesLayerLayoutImpl_H 1
 
 #include "gear/TrackerPlanesLayerLayout.h"
+#include <cstdarg>
+#include <cstdio>
+#include <string>
 #include <vector>
 #include <iostream>
 
@@ -359,6 +362,26 @@ class TrackerPlanesLayerLayoutImpl : public TrackerPlanesLayerLayout {
 	  
 	private:
 
+	  /** sprintf() into a string of the length needed - infos and values of any length are possible */
+	  static std::string format( const char* fmt, ... ) {
+
+	    va_list args ;
+
+	    va_start( args, fmt ) ;
+	    const int length = vsnprintf( 0, 0, fmt, args ) ;
+	    va_end( args ) ;
+
+	    if( length < 0 ) return std::string() ;
+
+	    std::vector<char> buffer( length + 1 ) ;
+
+	    va_start( args, fmt ) ;
+	    vsnprintf( &buffer[0], buffer.size(), fmt, args ) ;
+	    va_end( args ) ;
+
+	    return std::string( &buffer[0], length ) ;
+	  }
+
           /** */
           int ID{};
 
@@ -442,18 +465,16 @@ sprintf(buffer,"|------------------|--------------------------------------------
 /** */
 	virtual void PrintLayers( std::ostream& s) const {
 
-            	char buffer[1024] ;
                 const char* a=""; 
 
 		for( TrackerPlanesLayerImplVec::const_iterator it = _layerVec.begin(); it != _layerVec.end(); it++ ) {  
 			TrackerPlanesLayerImpl* layer = const_cast<TrackerPlanesLayerImpl* > (&(*it)) ;
 
- 		sprintf(buffer,"|%3d %14s|%3s %14s %5s %5s %5s %5s %5s %5s %5s %5s %5s %5s|%3s %14s %5s %5s %5s %5s %5s %5s %5s %5s %5s %5s`%5s %5s %6s %6s %6s %6s|\n"
+ 		s << format("|%3d %14s|%3s %14s %5s %5s %5s %5s %5s %5s %5s %5s %5s %5s|%3s %14s %5s %5s %5s %5s %5s %5s %5s %5s %5s %5s`%5s %5s %6s %6s %6s %6s|\n"
 			, layer->getID() 
 			, layer->getInfo().c_str()
                         ,  a,a ,a,a,a,a,a,a,a,a,a,a, a,a ,a,a,a,a,a,a,a,a,a,a, a,a,a,a,a,a 
 		);
-		s << buffer ;
 
                 TrackerPlanesMaterialLayerImplVec::const_iterator mb = layer->getMaterialLayerVec().begin();
                 TrackerPlanesMaterialLayerImplVec::const_iterator me = layer->getMaterialLayerVec().end();
@@ -461,7 +482,7 @@ sprintf(buffer,"|------------------|--------------------------------------------
                 TrackerPlanesSensitiveLayerImplVec::const_iterator se = layer->getSensitiveLayerVec().end();
 
                 for( TrackerPlanesMaterialLayerImplVec::const_iterator ml = mb ; ml < me; ml++) {
-      		  sprintf(buffer,"|%3s %14s|%3d %14s %5.0f %5.0f %5.0f %5.0f %5.0f %5.0f %5.2f %5.2f %5.2f %5.2f|%3s %14s %5s %5s %5s %5s %5s %5s %5s %5s %5s %5s`%5s %5s %6s %6s %6s %6s|\n"
+      		  s << format("|%3s %14s|%3d %14s %5.0f %5.0f %5.0f %5.0f %5.0f %5.0f %5.2f %5.2f %5.2f %5.2f|%3s %14s %5s %5s %5s %5s %5s %5s %5s %5s %5s %5s`%5s %5s %6s %6s %6s %6s|\n"
                       , a,a
                       , (*ml).getID() 
 		      , (*ml).getInfo().c_str() 
@@ -477,11 +498,10 @@ sprintf(buffer,"|------------------|--------------------------------------------
  		      , (*ml).getRadLength()
 	              , a,a ,a,a,a,a,a,a,a,a,a,a, a,a,a,a,a,a
  		  ); 
-	   	  s << buffer ;
                 }
 	
                 for( TrackerPlanesSensitiveLayerImplVec::const_iterator sl = sb ; sl < se; sl++) {
-	sprintf(buffer,"|%3s %14s|%3s %14s %5s %5s %5s %5s %5s %5s %5s %5s %5s %5s|%3d %14s %5.0f %5.0f %5.0f %5.0f %5.0f %5.0f %5.2f %5.2f %5.2f %5.2f`%5d %5d %5.4f %5.4f %5.4f %5.4f|\n"
+	s << format("|%3s %14s|%3s %14s %5s %5s %5s %5s %5s %5s %5s %5s %5s %5s|%3d %14s %5.0f %5.0f %5.0f %5.0f %5.0f %5.0f %5.2f %5.2f %5.2f %5.2f`%5d %5d %5.4f %5.4f %5.4f %5.4f|\n"
                       , a,a,   a,a,  a,a,  a,a,  a,a,  a,a,  a,a
  		      , (*sl).getID() 
  		      , (*sl).getInfo().c_str()
@@ -503,11 +523,9 @@ sprintf(buffer,"|------------------|--------------------------------------------
 		      , (*sl).getResolutionX()
        		      , (*sl).getResolutionY()
 	);
-		  s << buffer ;
                   }
                 }
-sprintf(buffer,"|--------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------|\n") ;
-      		s << buffer ;
+      		s << "|--------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------|\n" ;
 
 	}
         
diff --git a/src/gearimpl/Util.cc b/src/gearimpl/Util.cc
index ca96647..4403290 100644
--- a/src/gearimpl/Util.cc
+++ b/src/gearimpl/Util.cc
@@ -9,12 +9,38 @@
 #include "gear/LayerLayout.h"
 #include "gear/SimpleMaterial.h"
 
+#include <cstdarg>
 #include <cstdio>
 #include <iostream> 
 #include <iomanip>
+#include <string>
+#include <vector>
 
 namespace gear{
 
+  namespace {
+
+    /** sprintf() into a string of the length needed - values and texts of any length are possible */
+    std::string format( const char* fmt, ... ) {
+
+      va_list args ;
+
+      va_start( args, fmt ) ;
+      const int length = vsnprintf( 0, 0, fmt, args ) ;
+      va_end( args ) ;
+
+      if( length < 0 ) return std::string() ;
+
+      std::vector<char> buffer( length + 1 ) ;
+
+      va_start( args, fmt ) ;
+      vsnprintf( &buffer[0], buffer.size(), fmt, args ) ;
+      va_end( args ) ;
+
+      return std::string( &buffer[0], length ) ;
+    }
+  }
+
   std::ostream& operator<< (  std::ostream& s, const GearMgr& m ) {
 
 
@@ -518,8 +544,7 @@ namespace gear{
 
     for( int i = 0 ; i < l.getNLayers() ; i++ ) {
 
-      char buffer1[1024] ;
-      sprintf(buffer1,"  | %3d  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |\n"
+      const std::string buffer1 = format("  | %3d  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |\n"
 	      , l.getNLadders(i) 
 	      , l.getLadderDistance(i) 
 	      , l.getLadderWidth(i)
@@ -577,8 +602,7 @@ namespace gear{
 	  
 	  for( int i = 0 ; i < l.getNLayers() ; i++ ) 
 	  {
-		  char buffer1[1024] ;
-		  sprintf(buffer1,"  | %3d  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |\n"
+		  const std::string buffer1 = format("  | %3d  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |\n"
 				  , l.getNPetals(i) 
 				  , l.getSupportLengthMin(i) 
 				  , l.getSupportLengthMax(i)
@@ -659,8 +683,7 @@ namespace gear{
 
     for( int i = 0 ; i < l.getNLayers() ; i++ ) {
 
-      char buffer1[1024] ;
-      sprintf(buffer1,"  |%5d|%5.2f|%5.2f|%7.2f|%5.2f|%5.2f|%5.2f|%6.2f|%6.2f|%6.3f|%5d|%5.2f|%5.2f|%7.2f|%5.2f|%5.2f|%6.3f|%5d|%5d|%6.2f|%6.2f|%6.4f|%5.2f|%5.2f|%5.2f|%5.2f|\n"
+      const std::string buffer1 = format("  |%5d|%5.2f|%5.2f|%7.2f|%5.2f|%5.2f|%5.2f|%6.2f|%6.2f|%6.3f|%5d|%5.2f|%5.2f|%7.2f|%5.2f|%5.2f|%6.3f|%5d|%5d|%6.2f|%6.2f|%6.4f|%5.2f|%5.2f|%5.2f|%5.2f|\n"
 	      , l.getID(i) 
 	      , l.getLayerPositionX(i) 
 	      , l.getLayerPositionY(i) 
@@ -715,8 +738,7 @@ namespace gear{
       sprintf(buffer,"  |----------------------------------------------------------------------------------------------------------------------------------------------|\n") ;
       s << buffer ;
       
-      char buffer1[1024] ;
-      sprintf(buffer1,"  |%5d|%5.2f|%5.2f|%7.2f|%6.2f|%6.2f|%6.3f|%5d|%5.2f|%5.2f|%7.2f|%5.2f|%5.2f|%6.3f|%5d|%5d|%6.2f|%6.2f|%5.2f|%5.2f|%5.2f|%5.2f|\n"
+      const std::string buffer1 = format("  |%5d|%5.2f|%5.2f|%7.2f|%6.2f|%6.2f|%6.3f|%5d|%5.2f|%5.2f|%7.2f|%5.2f|%5.2f|%6.3f|%5d|%5d|%6.2f|%6.2f|%5.2f|%5.2f|%5.2f|%5.2f|\n"
 	      , l.getDUTID() 
 	      , l.getDUTPositionX() 
 	      , l.getDUTPositionY() 
-- 
2.43.0


From 1071e0e7d7dc4e3370694e9d9e777e93bac340b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:45 +0000
Subject: [PATCH 082/104] fix: printing the GearMgr showed SIT and SET twice

---
 src/gearimpl/Util.cc | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/gearimpl/Util.cc b/src/gearimpl/Util.cc
index 4403290..bf77dbc 100644
--- a/src/gearimpl/Util.cc
+++ b/src/gearimpl/Util.cc
@@ -112,17 +112,6 @@ namespace gear{
     } catch(UnknownParameterException &e){}
 
 
-    try{ 
-      // SIT parameters
-      s <<  m.getSITParameters() <<  std::endl  ;
-    } catch(UnknownParameterException &e){}
-
-
-    try{ 
-      // SET parameters
-      s <<  m.getSETParameters() <<  std::endl  ;
-    } catch(UnknownParameterException &e){}
-
     try{ 
       // TPC parameters
       s <<  m.getTPCParameters() <<  std::endl  ;
-- 
2.43.0


From cfe8e4051e799556d48793bca32b778e414199c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:45 +0000
Subject: [PATCH 083/104] fix: printing a SimpleMaterial changed the format of
 the stream

---
 src/gearimpl/Util.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gearimpl/Util.cc b/src/gearimpl/Util.cc
index bf77dbc..7b577f2 100644
--- a/src/gearimpl/Util.cc
+++ b/src/gearimpl/Util.cc
@@ -235,6 +235,7 @@ namespace gear{
   std::ostream& operator<< (  std::ostream& s, const  SimpleMaterial& m ) {
 
     const std::streamsize old_precision = s.precision(); // save current
+    const std::ios_base::fmtflags old_flags = s.flags() ;
     
     s << "    " << m.getName() 
       <<  std::showpos << std::scientific << std::setprecision(8) 
@@ -243,9 +244,11 @@ namespace gear{
       << ", density [kg/m3]= "         << m.getDensity() 
       << ", radiation length [mm]= "   << m.getRadLength() 
       << ", interaction length [mm]= " << m.getIntLength() 
-      <<  std::noshowpos << std::fixed << std::setprecision(old_precision) << std::dec
       << std::endl ;
 
+    s.precision( old_precision ) ; // restore
+    s.flags( old_flags ) ;
+
     return s ;
   }
 
-- 
2.43.0


From d434296e4a8d06794a8a90c0cc0127f31a6c314f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:12 +0000
Subject: [PATCH 084/104] fix: looking up an unknown geartype modified the
 table of XML handlers

---
 src/gearxml/XMLHandlerMgr.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gearxml/XMLHandlerMgr.cc b/src/gearxml/XMLHandlerMgr.cc
index ab163ef..ba99c2e 100644
--- a/src/gearxml/XMLHandlerMgr.cc
+++ b/src/gearxml/XMLHandlerMgr.cc
@@ -58,7 +58,10 @@ namespace gear{
   
   const XMLHandler* XMLHandlerMgr::getHandler( const std::string& type ) {
 
-    return _map[ type ] ;
+    // do not insert an entry for unknown types
+    XMLHandlerMap::const_iterator it = _map.find( type ) ;
+
+    return ( it != _map.end() ? it->second : 0 ) ;
   }
   
   
-- 
2.43.0


From 3f9e6a9e940c05dec07892bfa2685fb3e4b1be7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:12 +0000
Subject: [PATCH 085/104] fix: concurrent first use of the pad layout handlers
 was a data race and unknown layouts modified their table

---
 src/gearxml/PadRowLayout2DXML.cc | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/gearxml/PadRowLayout2DXML.cc b/src/gearxml/PadRowLayout2DXML.cc
index 40baad2..70629fa 100644
--- a/src/gearxml/PadRowLayout2DXML.cc
+++ b/src/gearxml/PadRowLayout2DXML.cc
@@ -14,7 +14,11 @@ namespace gear {
   
   PadRowLayout2DXML* PadRowLayout2DXML::getHandler( const std::string& typeName ) {
 
-    return PadRowLayout2DXML::map()[ typeName ] ;
+    // do not insert an entry for unknown types
+    const Map& handlers = PadRowLayout2DXML::map() ;
+    Map::const_iterator it = handlers.find( typeName ) ;
+
+    return ( it != handlers.end() ? it->second : 0 ) ;
   }
 
   PadRowLayout2DXML* PadRowLayout2DXML::getHandler(const PadRowLayout2D* l ) {
@@ -42,19 +46,18 @@ namespace gear {
 
   PadRowLayout2DXML::Map& PadRowLayout2DXML::map() {
     
-    static  PadRowLayout2DXML::Map theMap ;
     static FixedPadSizeDiskLayoutXML  aFixedPadSizeDiskLayoutXML ;
     static FixedPadAngleDiskLayoutXML  aFixedPadAngleDiskLayoutXML ;
     static RectangularPadRowLayoutXML aRectangularPadRowLayoutXML ;
     static VersatileDiskRowLayoutXML aVersatileDiskRowLayoutXML ;
 
-    if( theMap.size() == 0 ) {
-      
-      theMap["FixedPadSizeDiskLayout"] = & aFixedPadSizeDiskLayoutXML ;
-      theMap["FixedPadAngleDiskLayout"] = & aFixedPadAngleDiskLayoutXML ;
-      theMap["RectangularPadRowLayout"] = & aRectangularPadRowLayoutXML ;
-      theMap["VersatileDiskRowLayout"] = & aVersatileDiskRowLayoutXML ;
-    }
+    // filled by its initialisation, which only one thread carries out
+    static  PadRowLayout2DXML::Map theMap = {
+      { "FixedPadSizeDiskLayout",  & aFixedPadSizeDiskLayoutXML },
+      { "FixedPadAngleDiskLayout", & aFixedPadAngleDiskLayoutXML },
+      { "RectangularPadRowLayout", & aRectangularPadRowLayoutXML },
+      { "VersatileDiskRowLayout",  & aVersatileDiskRowLayoutXML }
+    } ;
     return theMap ;
   }
 
-- 
2.43.0


From 0f2df007f0df3abe5ae171fa6ec1c4ebfeecef06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:07 +0000
Subject: [PATCH 086/104] fix: material maps missed the last grid points, wrote
 outside the map without steps and looped endlessly for empty ranges

---
 src/geartgeo/MaterialMap.cc | 67 ++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 31 deletions(-)

diff --git a/src/geartgeo/MaterialMap.cc b/src/geartgeo/MaterialMap.cc
index 70755df..fcbfd1f 100644
--- a/src/geartgeo/MaterialMap.cc
+++ b/src/geartgeo/MaterialMap.cc
@@ -47,6 +47,14 @@ namespace gear {
       }
     
     
+    //there is only one grid point if the range is empty
+    if(xmax==xmin)
+      nxsteps=0;
+    if(ymax==ymin)
+      nysteps=0;
+    if(zmax==zmin)
+      nzsteps=0;
+
     const GearDistanceProperties &gDP=gearMgr->getDistanceProperties();
     _xmin   =xmin    ;   
     _xmax   =xmax    ;
@@ -67,16 +75,17 @@ namespace gear {
  	  _myMap[s][s2].resize(nzsteps+1);
       }
    
+    //with a single grid point at the minimum the step has to exceed the range
     if(nxsteps==0)
-      _xstep=1;
+      _xstep=1+xmax-xmin;
     else
       _xstep=(xmax-xmin)/nxsteps;
     if(nysteps==0)
-      _ystep=1;
+      _ystep=1+ymax-ymin;
     else
       _ystep=(ymax-ymin)/nysteps;
     if(nzsteps==0)
-      _zstep=1;
+      _zstep=1+zmax-zmin;
     else
       _zstep=(zmax-zmin)/nzsteps;
     
@@ -86,12 +95,16 @@ namespace gear {
     initial[1]=0;
     initial[2]=0;
     
-    for(double x= xmin;x<=xmax;x+=_xstep)//or r
+    //count the grid points: adding up the steps might miss the last one
+    for(int ix=0;ix<=nxsteps;++ix)//or r
       {
-	for(double y= ymin;y<=ymax;y+=_ystep)// or phi or theta
+	const double x=xmin+ix*_xstep;
+	for(int iy=0;iy<=nysteps;++iy)// or phi or theta
 	  {
-	    for(double z= zmin;z<=zmax;z+=_zstep) //or theta
+	    const double y=ymin+iy*_ystep;
+	    for(int iz=0;iz<=nzsteps;++iz) //or theta
 	      {
+		const double z=zmin+iz*_zstep;
 		//GearDistanceProperties need coordinates in cartesian x,y,z
 		switch (coord)
 		  {
@@ -129,9 +142,7 @@ namespace gear {
 		    _values.first=gDP.getNRadlen( initial, final);
 		    _values.second=gDP.getNIntlen( initial, final);     
 		  }
-		std::vector<int> pos;
-		calculateGridIndex(pos,x,y,z);
-		_myMap[pos[0]][pos[1]][pos[2]]=_values;
+		_myMap[ix][iy][iz]=_values;
 	      }//z
 	  }//y
       }//x
@@ -171,30 +182,27 @@ namespace gear {
 
   void MaterialMap::interpolateOnGrid(std::pair<double,double> &result, double x, double y, double z) const
   {
-    //find eight neighbouring grid points
+    //find eight neighbouring grid points, starting with the one below the point in all directions
+    //(the point can be outside the grid by the tolerance of calculateGridIndex)
+    int gx=int((x-_xmin)/_xstep),gy=int((y-_ymin)/_ystep),gz=int((z-_zmin)/_zstep);
+    if(gx<0) gx=0;
+    if(gy<0) gy=0;
+    if(gz<0) gz=0;
+    if(gx>_nxsteps) gx=_nxsteps;
+    if(gy>_nysteps) gy=_nysteps;
+    if(gz>_nzsteps) gz=_nzsteps;
     double px[2],py[2],pz[2];
-    px[0]=x-fmod(x-_xmin,_xstep);
+    px[0]=_xmin+gx*_xstep;
     px[1]=px[0]+_xstep;
-    py[0]=y-fmod(y-_ymin,_ystep);
+    py[0]=_ymin+gy*_ystep;
     py[1]=py[0]+_ystep;
-    pz[0]=z-fmod(z-_zmin,_zstep);
+    pz[0]=_zmin+gz*_zstep;
     pz[1]=pz[0]+_zstep;
     //check wether they are within grid
-    int xcount=0,ycount=0,zcount=0;
-    if(_xmin<=px[0] && px[0]<=_xmax) 
-      xcount++;      
-    if(_xmin<=px[1] && px[1]<=_xmax)
-      xcount++;
-    if(_ymin<=py[0] && py[0]<=_ymax)
-      ycount++;
-    if(_ymin<=py[1] && py[1]<=_ymax)
-      ycount++;
-    if(_zmin<=pz[0] && pz[0]<=_zmax)
-      zcount++;
-    if(_zmin<=pz[1] && pz[1]<=_zmax)
-      zcount++;
+    const int xcount=(gx<_nxsteps ? 2 : 1);
+    const int ycount=(gy<_nysteps ? 2 : 1);
+    const int zcount=(gz<_nzsteps ? 2 : 1);
     //calculate distances from x,y,z to each neighbour
-    int counter=0;
     double sumIntL=0,sumRadL=0,sumWeight=0;
     bool isOnGrid=false;
     for(int ix=0;ix<xcount;ix++)
@@ -204,10 +212,7 @@ namespace gear {
 	    for(int iz=0;iz<zcount;iz++)
 	      {
 		double d=sqrt((x-px[ix])*(x-px[ix])+(y-py[iy])*(y-py[iy])+(z-pz[iz])*(z-pz[iz]));
-		std::vector<int>  gpos;
-		calculateGridIndex(gpos,px[ix],py[iy],pz[iz]);
-		std::pair<double,double> vals=_myMap[gpos[0]][gpos[1]][gpos[2]];
-		counter++;
+		std::pair<double,double> vals=_myMap[gx+ix][gy+iy][gz+iz];
 		if(fabs(d)<1e-5)//point in querry is a grid point
 		  {
 		    sumRadL=vals.first;
-- 
2.43.0


From 39ad3e880ec5735aff8b7fb04da1e92eefdb3b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:07 +0000
Subject: [PATCH 087/104] fix: MaterialMapFactory returned the map of a
 different coordinate system

---
 src/geartgeo/MaterialMapFactory.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geartgeo/MaterialMapFactory.cc b/src/geartgeo/MaterialMapFactory.cc
index 243875c..8cb8282 100644
--- a/src/geartgeo/MaterialMapFactory.cc
+++ b/src/geartgeo/MaterialMapFactory.cc
@@ -16,9 +16,9 @@ namespace gear {
 					 double zmin, double zmax, int nzsteps, 
 					 int coord)
   {
-    double gridA[]={xmin,xmax,double(nxsteps),ymin,ymax,double(nysteps),zmin,zmax,double(nzsteps)};
+    double gridA[]={xmin,xmax,double(nxsteps),ymin,ymax,double(nysteps),zmin,zmax,double(nzsteps),double(coord)};
     std::vector<double> gridV;
-    gridV.assign(gridA,gridA+9);
+    gridV.assign(gridA,gridA+10);
 
     if(_managerMap.find(gridV)==_managerMap.end())
 	_managerMap[gridV]=new MaterialMap(_gearMgr,xmin,xmax,nxsteps,ymin,ymax,nysteps,zmin,zmax,nzsteps,coord);
-- 
2.43.0


From cff9dd57d15abe38aed662f307bb876e0aeb13c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:18 +0000
Subject: [PATCH 088/104] fix: calorimeter layers differing by less than 1e-4
 were written as equal layers

---
 src/gearxml/CalorimeterParametersXML.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearxml/CalorimeterParametersXML.cc b/src/gearxml/CalorimeterParametersXML.cc
index dad9cf6..78cfef8 100644
--- a/src/gearxml/CalorimeterParametersXML.cc
+++ b/src/gearxml/CalorimeterParametersXML.cc
@@ -16,7 +16,7 @@
 #include <math.h>
 #include <string>
 
-#define _EPSILON 0.0001
+#define _EPSILON 1e-10
 
 
 namespace gear {
-- 
2.43.0


From 3f718dcd3a8fb7f22303b07cfc44fd824f8b93f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:14 +0000
Subject: [PATCH 089/104] fix: calorimeter layers that differ only in their
 cell sizes were not printed

---
 src/gearimpl/Util.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/gearimpl/Util.cc b/src/gearimpl/Util.cc
index 7b577f2..2149e03 100644
--- a/src/gearimpl/Util.cc
+++ b/src/gearimpl/Util.cc
@@ -453,13 +453,18 @@ namespace gear{
 
     double lastThickness = 0. ;
     double lastAbsorber  = 0. ;
+    double lastCellSize0 = 0. ;
+    double lastCellSize1 = 0. ;
 
     for( int i=0 ; i < nLayer ; ++i ) {
 
       double thisThickness = l.getThickness(i)  ;
       double thisAbsorber  =  l.getAbsorberThickness(i) ;
+      double thisCellSize0 =  l.getCellSize0(i) ;
+      double thisCellSize1 =  l.getCellSize1(i) ;
 
       if( (thisThickness != lastThickness || thisAbsorber != lastAbsorber ) || 
+ 	  ( thisCellSize0 != lastCellSize0 || thisCellSize1 != lastCellSize1 ) || 
  	  ( i == nLayer-1 ) ) {
 	
 	s << "       id: " << i << " thickness: " <<  thisThickness
@@ -472,6 +477,8 @@ namespace gear{
       
       lastThickness = thisThickness ;
       lastAbsorber = thisAbsorber ;
+      lastCellSize0 = thisCellSize0 ;
+      lastCellSize1 = thisCellSize1 ;
     }
 
 
-- 
2.43.0


From 97ab48b43cd7d770b981910540d1721f805b3183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:57 +0000
Subject: [PATCH 090/104] fix: material along a line lacked the last piece
 before the end of the top volume

---
 src/geartgeo/TGeoGearDistanceProperties.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/geartgeo/TGeoGearDistanceProperties.cc b/src/geartgeo/TGeoGearDistanceProperties.cc
index a27cf66..9a3b431 100644
--- a/src/geartgeo/TGeoGearDistanceProperties.cc
+++ b/src/geartgeo/TGeoGearDistanceProperties.cc
@@ -61,7 +61,8 @@ namespace gear {
 	TVirtualGeoTrack *track; 
 	node2 = _tgeomanager->FindNextBoundaryAndStep(500, 1) ;
 	
-	if(!node2 || _tgeomanager->IsOutside())
+	//when leaving the top volume there is no next node, but still the last step inside
+	if(!node2 && !_tgeomanager->IsOutside())
 	  break;
 	
 	const double *position =(double*) _tgeomanager->GetCurrentPoint();
@@ -72,7 +73,7 @@ namespace gear {
 	//work around until solution within root can be found when the step gets very small e.g. 1e-10
 	//and the next boundary is never reached
 	
-	if(length<MINSTEP)
+	if(length<MINSTEP && node2)
 	  {
 	    _tgeomanager->SetCurrentPoint(position[0]+MINSTEP*direction[0], position[1]+MINSTEP*direction[1], position[2]+MINSTEP*direction[2]);
 	    length=_tgeomanager->GetStep();
-- 
2.43.0


From 0a037b9dd3a06e696d7533a6abec30cd2a102583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:57 +0000
Subject: [PATCH 091/104] fix: material after a very small step was listed with
 the wrong thickness and volume

---
 src/geartgeo/TGeoGearDistanceProperties.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/geartgeo/TGeoGearDistanceProperties.cc b/src/geartgeo/TGeoGearDistanceProperties.cc
index 9a3b431..4962bce 100644
--- a/src/geartgeo/TGeoGearDistanceProperties.cc
+++ b/src/geartgeo/TGeoGearDistanceProperties.cc
@@ -75,9 +75,12 @@ namespace gear {
 	
 	if(length<MINSTEP && node2)
 	  {
+	    //the boundary of a very thin volume might have been crossed
+	    node1=node2;
+
 	    _tgeomanager->SetCurrentPoint(position[0]+MINSTEP*direction[0], position[1]+MINSTEP*direction[1], position[2]+MINSTEP*direction[2]);
-	    length=_tgeomanager->GetStep();
 	    node2 = _tgeomanager->FindNextBoundaryAndStep(500, 1) ;
+	    length=_tgeomanager->GetStep();
 
 	    //fg: need to update positions as well !?
 	    position = (const double*) _tgeomanager->GetCurrentPoint();
-- 
2.43.0


From 3b75f739ead040fe0e6d9c445562eeca056fa4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:57 +0000
Subject: [PATCH 092/104] fix: tracks piled up when a line started outside the
 geometry

---
 src/geartgeo/TGeoGearDistanceProperties.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geartgeo/TGeoGearDistanceProperties.cc b/src/geartgeo/TGeoGearDistanceProperties.cc
index 4962bce..206c2f9 100644
--- a/src/geartgeo/TGeoGearDistanceProperties.cc
+++ b/src/geartgeo/TGeoGearDistanceProperties.cc
@@ -52,8 +52,10 @@ namespace gear {
     _tgeomanager->AddTrack(0,12);
     TGeoNode *node1 = _tgeomanager->InitTrack(startpoint, direction);
     //check if there is a node at startpoint
-    if(!node1)
+    if(!node1){
+      _tgeomanager->ClearTracks();
       throw OutsideGeometryException("No geometry node found at given location. Either there is no node placed here or position is outside of top volume.");
+    }
     
     while (!_tgeomanager->IsOutside()) 
       {
-- 
2.43.0


From e8d8d9a6177dfae5be914a9feaa3ef92043063a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:57 +0000
Subject: [PATCH 093/104] fix: material along a line was empty after a refused
 or an empty line

---
 src/geartgeo/TGeoGearDistanceProperties.cc | 29 +++++++++-------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/geartgeo/TGeoGearDistanceProperties.cc b/src/geartgeo/TGeoGearDistanceProperties.cc
index 206c2f9..a5c9846 100644
--- a/src/geartgeo/TGeoGearDistanceProperties.cc
+++ b/src/geartgeo/TGeoGearDistanceProperties.cc
@@ -22,8 +22,9 @@ namespace gear {
     if(p0==_p0 && p1==_p1)
       return;
     else{
-      _p0=p0;
-      _p1=p1;
+      //nothing is in memory until the tracking has succeeded
+      _p0=Vector3D();
+      _p1=Vector3D();
       _volNames.clear();
       _matNames.clear();
       _distance.clear();
@@ -31,6 +32,10 @@ namespace gear {
       _radLen.clear();
     }
     
+    //if p0 and p1 are the same point, there is no material in between
+    if(p0==p1)
+      return;
+
 
     // printf( " ----- beamOn  called :  %1.8e   %1.8e   %1.8e   %1.8e   %1.8e   %1.8e \n" , 
     // 	    p0[0], p0[1], p0[2], p1[0], p1[1], p1[2] ) ;
@@ -131,17 +136,15 @@ namespace gear {
       }
     _tgeomanager->ClearTracks();
     _tgeomanager->CleanGarbage();
+    _p0=p0;
+    _p1=p1;
   }
 
   /** List of matrial names along the distance between [p0,p1] .
    */
   const std::vector<std::string>&  TGeoGearDistanceProperties::getMaterialNames(const Vector3D & p0, const Vector3D & p1) const {
     
-    //check if itp0 and p1 are the same point, if so don't do anything, no material in between
-    if(p0==p1)
-      _matNames.clear();
-    else
-      beamOn(p0, p1);
+    beamOn(p0, p1);
     
     return _matNames;
   }
@@ -150,11 +153,7 @@ namespace gear {
    */
   const std::vector<std::string>  TGeoGearDistanceProperties::getVolumeNames(const Vector3D & p0, const Vector3D & p1) const {
     
-    //check if itp0 and p1 are the same point, if so don't do anything, no material in between
-    if(p0==p1)
-      _volNames.clear();
-    else
-      beamOn(p0, p1);
+    beamOn(p0, p1);
     
     return _volNames;
   }
@@ -164,11 +163,7 @@ namespace gear {
    */
   const std::vector<double>&  TGeoGearDistanceProperties::getMaterialThicknesses(const Vector3D & p0, const Vector3D & p1) const {
         
-    //check if itp0 and p1 are the same point, if so don't do anything, no material in between
-    if(p0==p1)
-      _distance.clear();
-    else
-      beamOn(p0, p1);
+    beamOn(p0, p1);
     
     return _distance;
   }
-- 
2.43.0


From c1b809f24b54d316e23174a7086cfea924e3a2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:57 +0000
Subject: [PATCH 094/104] fix: local position was that in the volume of an
 earlier query

---
 src/geartgeo/TGeoGearPointProperties.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geartgeo/TGeoGearPointProperties.cc b/src/geartgeo/TGeoGearPointProperties.cc
index 133ba11..1a45952 100644
--- a/src/geartgeo/TGeoGearPointProperties.cc
+++ b/src/geartgeo/TGeoGearPointProperties.cc
@@ -139,6 +139,10 @@ namespace gear {
     const Double_t global[3]={pos[0],pos[1],pos[2]};
     Double_t local[3];
 
+    //the local coordinates are those of the volume at pos
+    if(!_tgeomanager->FindNode(global[0],global[1],global[2]))
+      throw OutsideGeometryException("No geometry node found at given location. Either there is no node placed here or position is outside of top volume.");
+
     _tgeomanager->MasterToLocal(global, local);
     
     return Vector3D(local[0],local[1],local[2]) ;
-- 
2.43.0


From 3f0b91f243316a6e62609d075805c0489672ae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:43 +0000
Subject: [PATCH 095/104] fix: pad layouts accepted more rows or pads than an
 index can hold

---
 src/gearimpl/FixedPadAngleDiskLayout.cc |  5 +++++
 src/gearimpl/FixedPadSizeDiskLayout.cc  |  4 ++++
 src/gearimpl/RectangularPadRowLayout.cc | 15 +++++++++++++--
 src/gearimpl/VersatileDiskRowLayout.cc  |  6 ++++++
 4 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/FixedPadAngleDiskLayout.cc b/src/gearimpl/FixedPadAngleDiskLayout.cc
index 9136484..00e91ef 100644
--- a/src/gearimpl/FixedPadAngleDiskLayout.cc
+++ b/src/gearimpl/FixedPadAngleDiskLayout.cc
@@ -1,5 +1,6 @@
 #include "gearimpl/FixedPadAngleDiskLayout.h"
 
+#include <climits>
 #include <cmath>
 #include <math.h>
 #include <iostream>
@@ -38,6 +39,10 @@ namespace gear {
     if( nRow < 0 || nPadsInRow < 0 )
       throw ParseException( " FixedPadAngleDiskLayout: negative number of rows or pads" ) ;
 
+    // row and pad numbers have 16 bits in a pad index
+    if( nRow > 65536 || nPadsInRow > 65536 || double( nRow ) * nPadsInRow > double( INT_MAX ) )
+      throw ParseException( " FixedPadAngleDiskLayout: too many rows or pads" ) ;
+
     // angles far beyond any real one (or infinite) cannot be reduced to one turn
     if( !( std::fabs( phiMin ) < 1.e6 && std::fabs( phiMax ) < 1.e6 ) )
       throw ParseException( " FixedPadAngleDiskLayout: phiMin or phiMax out of range" ) ;
diff --git a/src/gearimpl/FixedPadSizeDiskLayout.cc b/src/gearimpl/FixedPadSizeDiskLayout.cc
index 8319ba7..86f83c3 100644
--- a/src/gearimpl/FixedPadSizeDiskLayout.cc
+++ b/src/gearimpl/FixedPadSizeDiskLayout.cc
@@ -1,5 +1,6 @@
 #include "gearimpl/FixedPadSizeDiskLayout.h"
 
+#include <climits>
 #include <cmath>
 #include <math.h>
 #include <iostream>
@@ -125,6 +126,9 @@ namespace gear {
       if( !( nPad > -65536. && nPad < 65536. ) ) // pad numbers have 16 bits
 	throw ParseException( " FixedPadSizeDiskLayout: too many pads in a row" ) ;
 
+      if( !( std::fabs( _nPad + nPad ) < double( INT_MAX ) ) )
+	throw ParseException( " FixedPadSizeDiskLayout: too many pads" ) ;
+
       row.NPad = static_cast<int>( nPad );
 
       row.PhiPad = _phiMax  / row.NPad ;
diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index 807cb96..dcf4e35 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -1,5 +1,6 @@
 #include "gearimpl/RectangularPadRowLayout.h"
 
+#include <climits>
 #include <cmath>
 #include <math.h>
 #include <iostream>
@@ -68,6 +69,11 @@ namespace gear {
     }
 
 
+    // row and pad numbers have 16 bits in a pad index
+    if( nPad > 65536 || nRow > 65536 - int( _rows.size() ) || double( nRow ) * nPad > double( INT_MAX - _nPad ) ) {
+      throw Exception( "RectangularPadRowLayout::addRow: too many rows or pads" ) ;
+    }
+
     double xMin = _extent[0] + leftOffset ;
     double xMax = _extent[1] - rightOffset ;
 
@@ -133,9 +139,14 @@ namespace gear {
     if( _repeatRows > 0  ) // ignore all but first call
       return ;
 
-    _repeatRows = count ;
-    
     int nRow = _rows.size() ;
+
+    // row numbers have 16 bits in a pad index
+    if( double( nRow ) * count > 65536. || double( _nPad ) * count > double( INT_MAX ) ) {
+      throw Exception( "RectangularPadRowLayout::repeatRows: too many rows or pads" ) ;
+    }
+
+    _repeatRows = count ;
     
     for(unsigned i=1 ; i< count ; ++i ){
       for(int j=0 ; j< nRow; ++j ){
diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index 6be5910..46a9452 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -1,5 +1,6 @@
 #include "gearimpl/VersatileDiskRowLayout.h"
 
+#include <climits>
 #include <cmath>
 #include <iostream>
 //#include <stdexcept>
@@ -70,6 +71,11 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
     if ( repeat <= 0)
 	throw Exception(routineName+"Error, number of repitions must be positive!");
 
+    // row and pad numbers have 16 bits in a pad index
+    if ( nPads > 65536 || repeat > 65536 - static_cast<int>(_rows.size())
+	 || static_cast<double>(repeat) * nPads > static_cast<double>(INT_MAX - _nPad) )
+	throw Exception(routineName+"Error, too many rows or pads!");
+
     if (padWidth == 0.)
 	padWidth = padPitch;
     if (padHeight == 0.)
-- 
2.43.0


From 8c8a0cf4f06516aee32ecb6f71d22726ef0e9a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:05 +0000
Subject: [PATCH 096/104] fix: refused rows were counted in the number of pads

---
 src/gearimpl/RectangularPadRowLayout.cc | 4 ++--
 src/gearimpl/VersatileDiskRowLayout.cc  | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index dcf4e35..b27bfaa 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -92,8 +92,6 @@ namespace gear {
 
     Row row ; 
 
-    _nPad += abs( nRow ) * abs( nPad )  ;
-    
     row.WidthPerPad = rowWidth / nPad ;
 
     if( rowHeight == 0.0 ) 
@@ -109,6 +107,8 @@ namespace gear {
     }
 
 
+    _nPad += nRow * nPad ;
+
     row.NPad = nPad  ;
     row.PadWidth = padWidth ;
     row.PadHeight = padHeight ;
diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index 46a9452..0d5397e 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -83,13 +83,12 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
 
     double rCentre = _extent[1] + rowHeight*0.5;
 
-    _nPad +=  repeat*nPads ;
-
     for (int i = 0; i < repeat; i++)
     {
 	_rows.push_back( Row(_rows.size(), nPads, rCentre, padPitch , rowHeight , 
 			     padWidth, padHeight, offset ) ); 
 	_padIndices.push_back( 0 );
+	_nPad += nPads ;
 	rCentre += rowHeight;
 
 	// calculate correct plane extent
-- 
2.43.0


From bd41f8a896eee842d1be86d8dfd53d00de606678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:41 +0000
Subject: [PATCH 097/104] fix: a file that could not be read was merged as far
 as it goes

---
 src/gearxml/MergeXML.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gearxml/MergeXML.cc b/src/gearxml/MergeXML.cc
index 1342078..9a838c8 100644
--- a/src/gearxml/MergeXML.cc
+++ b/src/gearxml/MergeXML.cc
@@ -47,6 +47,11 @@ namespace gear{
       return false ;
     }
 
+    // don't merge what could be read of a damaged file
+    if ( _file1->Error() || _file2->Error() ) {
+      return false ;
+    }
+
     // the files in order of dominancy
     TiXmlDocument* recFile = ( _domFile == 1 ) ? _file2 : _file1 ;
     TiXmlDocument* domFile = ( _domFile == 1 ) ? _file1 : _file2 ;
-- 
2.43.0


From 471c1747eb05f1484b91c72d6896e42c6d36d226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:06 +0000
Subject: [PATCH 098/104] fix: a comment in a parameter element hid its value

---
 src/gearxml/GearParametersXML.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/gearxml/GearParametersXML.cc b/src/gearxml/GearParametersXML.cc
index 88486c5..9cbc142 100644
--- a/src/gearxml/GearParametersXML.cc
+++ b/src/gearxml/GearParametersXML.cc
@@ -232,8 +232,17 @@ namespace gear {
       }      
       catch( ParseException const& ) {
 	
-	if( par->FirstChild() )
-	  value =  par->FirstChild()->Value() ;
+	// the text may be interrupted by comments
+	for( const TiXmlNode* child = par->FirstChild() ; child != 0 ; child = child->NextSibling() ) {
+
+	  if( child->ToText() == 0 )
+	    continue ;
+
+	  if( ! value.empty() )
+	    value += ' ' ;
+
+	  value += child->Value() ;
+	}
       }
       
       
-- 
2.43.0


From 399da68fa3407850ee9b1bca2dbb305bff885080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:06 +0000
Subject: [PATCH 099/104] fix: merging appended the text of the second file to
 that of the first

---
 src/gearxml/MergeXML.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gearxml/MergeXML.cc b/src/gearxml/MergeXML.cc
index 9a838c8..f10ee43 100644
--- a/src/gearxml/MergeXML.cc
+++ b/src/gearxml/MergeXML.cc
@@ -126,6 +126,9 @@ namespace gear{
 	// debug information
 	//std::cout << " loopNode " << loopNode -> Value() << std::endl ;
 
+	// text belongs to the dominant element
+	if ( loopNode->ToText() ) continue ;
+
 	// check how often nodes appear
 	int countRec = countNodes( loopNode, node ) ;
 	int countDom = countNodes( loopNode, domNode ) ;
-- 
2.43.0


From 21b780a7fd3a6c6078a6823c59d53d3f099b32f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:41 +0000
Subject: [PATCH 100/104] fix: a handler registered again or for several types
 was deleted too early or twice

---
 src/gearxml/XMLHandlerMgr.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/gearxml/XMLHandlerMgr.cc b/src/gearxml/XMLHandlerMgr.cc
index ba99c2e..66dbc93 100644
--- a/src/gearxml/XMLHandlerMgr.cc
+++ b/src/gearxml/XMLHandlerMgr.cc
@@ -12,6 +12,7 @@
 #include "gear/GEAR.h"
 
 
+#include <set>
 #include <string> 
 #include <sstream> 
 
@@ -36,9 +37,13 @@ namespace gear{
 
     XMLHandlerMap::iterator it_end = _map.end() ;
 
+    // a handler may be registered for several types
+    std::set< XMLHandler* > handlers ;
+
     for( XMLHandlerMap::iterator it = _map.begin() ; it != it_end ; ++ it  ) {
       
-      delete it->second ;
+      if( handlers.insert( it->second ).second )
+	delete it->second ;
     }
   }
   
@@ -74,9 +79,18 @@ namespace gear{
     
     if( it != _map.end()  ) {
       
-      delete it->second ;
+      XMLHandler* old = it->second ;
       
       it->second = handler ;
+
+      // keep a handler that is registered again or for another type
+      for( it = _map.begin() ; it != _map.end() ; ++it ) {
+
+	if( it->second == old )
+	  return ;
+      }
+
+      delete old ;
       
     } else {
       
-- 
2.43.0


From c8fdbc51038519b042036ad2c05ad165fcf7e709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:41 +0000
Subject: [PATCH 101/104] fix: ladders more than 100 m away were not found

---
 src/gearimpl/ZPlanarParametersImpl.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/ZPlanarParametersImpl.cc b/src/gearimpl/ZPlanarParametersImpl.cc
index 50203a4..23802df 100644
--- a/src/gearimpl/ZPlanarParametersImpl.cc
+++ b/src/gearimpl/ZPlanarParametersImpl.cc
@@ -2,6 +2,7 @@
 #include <math.h>
 #include <algorithm>
 #include <iostream>
+#include <limits>
 
 #define _EPSILON 0.0001
 
@@ -209,7 +210,7 @@ namespace gear{
 
     // this Point is solution
     Vector3D vPointPlane ;
-    double minDistance = 99999.99 ;
+    double minDistance = std::numeric_limits<double>::max() ;
 
     // go through all layers
     for ( int nearestLayer=0 ; nearestLayer < _layer.getNLayers() ; nearestLayer++ ) {
@@ -411,7 +412,7 @@ namespace gear{
   Vector3D ZPlanarParametersImpl::intersectionLadder( Vector3D p , Vector3D v , bool sensitive ) const {
     
     // return values
-    double currentLength = 99999 ;
+    double currentLength = std::numeric_limits<double>::max() ;
     Vector3D currentPoint (0. , 0. , 0. ) ;
     
     for ( int takeLayer=0 ; takeLayer < _layer.getNLayers() ; takeLayer++ ) {
-- 
2.43.0


From 65504340323ee5ee4607dfd35d7e4495d82f9a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:05 +0000
Subject: [PATCH 102/104] fix: memory leaked when a file or element was refused
 while reading

---
 src/gearxml/CalorimeterParametersXML.cc   | 35 ++++++++++++-----------
 src/gearxml/ConstantBFieldXML.cc          |  9 +++---
 src/gearxml/FTDParametersXML.cc           |  9 +++---
 src/gearxml/GearParametersXML.cc          |  9 +++---
 src/gearxml/RectangularPadRowLayoutXML.cc |  5 ++--
 src/gearxml/SiPlanesParametersXML.cc      |  9 +++---
 src/gearxml/SimpleMaterialXML.cc          |  7 +++--
 src/gearxml/TPCModuleXML.cc               | 18 +++++++-----
 src/gearxml/TPCParametersXML.cc           | 32 +++++++++++++--------
 src/gearxml/TrackerPlanesParametersXML.cc |  9 +++---
 src/gearxml/VersatileDiskRowLayoutXML.cc  |  5 ++--
 src/gearxml/ZPlanarParametersXML.cc       | 13 +++++----
 12 files changed, 91 insertions(+), 69 deletions(-)

diff --git a/src/gearxml/CalorimeterParametersXML.cc b/src/gearxml/CalorimeterParametersXML.cc
index 78cfef8..e6ef699 100644
--- a/src/gearxml/CalorimeterParametersXML.cc
+++ b/src/gearxml/CalorimeterParametersXML.cc
@@ -15,6 +15,7 @@
 #include <sstream>
 #include <math.h>
 #include <string>
+#include <memory>
 
 #define _EPSILON 1e-10
 
@@ -192,7 +193,7 @@ namespace gear {
     int    symmetry   =  atoi(  getXMLAttribute( layout , "symmetry" ) .c_str() ) ;
     double phi0       =  atof(  getXMLAttribute( layout , "phi0" ) .c_str() ) ;
 
-    CalorimeterParametersImpl* caloParams = 0 ;
+    std::unique_ptr<CalorimeterParametersImpl> caloParams ;
     
     double firstLayerDistance = 0. ;
     bool isBarrelCalorimeter = false ;
@@ -205,7 +206,7 @@ namespace gear {
       double rMin = atof(  getXMLAttribute( dimensions , "inner_r" ) .c_str() ) ;
       double zMax = atof(  getXMLAttribute( dimensions , "outer_z" ) .c_str() ) ;
       
-      caloParams = new CalorimeterParametersImpl( rMin, zMax,  symmetry , phi0 ) ;
+      caloParams.reset( new CalorimeterParametersImpl( rMin, zMax,  symmetry , phi0 ) ) ;
 
       firstLayerDistance = rMin ;
 
@@ -216,14 +217,14 @@ namespace gear {
       double rMax = atof(  getXMLAttribute( dimensions , "outer_r" ) .c_str() ) ;
       double zMin = atof(  getXMLAttribute( dimensions , "inner_z" ) .c_str() ) ;
       
-      caloParams = new CalorimeterParametersImpl( rMin, rMax, zMin,  symmetry , phi0 ) ;
+      caloParams.reset( new CalorimeterParametersImpl( rMin, rMax, zMin,  symmetry , phi0 ) ) ;
 
       firstLayerDistance = zMin ;
 
     }
 
     // now we can read the generic parameters
-    GearParametersXML::setParametersFromXML( xmlElement, caloParams  ) ;    
+    GearParametersXML::setParametersFromXML( xmlElement, caloParams.get()  ) ;    
 
 
     // ----- layers ------------
@@ -268,52 +269,52 @@ namespace gear {
 	
 	if( caloName.find("plug" ) != std::string::npos ){
 	  
-	  gearMgr->setEcalPlugParameters( caloParams ) ;	  
+	  gearMgr->setEcalPlugParameters( caloParams.get() ) ;	  
 	}
 	else if( isBarrelCalorimeter )
-	  gearMgr->setEcalBarrelParameters( caloParams ) ;
+	  gearMgr->setEcalBarrelParameters( caloParams.get() ) ;
 	else
-	  gearMgr->setEcalEndcapParameters( caloParams ) ;
+	  gearMgr->setEcalEndcapParameters( caloParams.get() ) ;
 	
       } else if( caloName.find("yoke") != std::string::npos ){
 	
 	if( caloName.find("plug" ) != std::string::npos ){
 	  
-	  gearMgr->setYokePlugParameters( caloParams ) ;	  
+	  gearMgr->setYokePlugParameters( caloParams.get() ) ;	  
 	}
 	else if( isBarrelCalorimeter )
-	  gearMgr->setYokeBarrelParameters( caloParams ) ;
+	  gearMgr->setYokeBarrelParameters( caloParams.get() ) ;
 	else
-	  gearMgr->setYokeEndcapParameters( caloParams ) ;
+	  gearMgr->setYokeEndcapParameters( caloParams.get() ) ;
 	
       }  else if( caloName.find("lcal" ) != std::string::npos ) {
 	
-	gearMgr->setLcalParameters( caloParams ) ;	
+	gearMgr->setLcalParameters( caloParams.get() ) ;	
 	
       } else if( caloName.find("lhcal" ) != std::string::npos ) {
 	
-        gearMgr->setLHcalParameters( caloParams ) ;	
+        gearMgr->setLHcalParameters( caloParams.get() ) ;	
 	
       } else if( caloName.find("beamcal" ) != std::string::npos ) {
 	
-	gearMgr->setBeamCalParameters( caloParams ) ;	
+	gearMgr->setBeamCalParameters( caloParams.get() ) ;	
 
       } else if( caloName.find("hcal" ) != std::string::npos ) {
 	
 	// the additional hcal ring might be endcap or barrel like..
 	if( caloName.find("ring" ) != std::string::npos ){
 
-	  gearMgr->setHcalRingParameters( caloParams ) ;	  
+	  gearMgr->setHcalRingParameters( caloParams.get() ) ;	  
 	}
 	else if( isBarrelCalorimeter )
-	  gearMgr->setHcalBarrelParameters( caloParams ) ;
+	  gearMgr->setHcalBarrelParameters( caloParams.get() ) ;
 	else
-	  gearMgr->setHcalEndcapParameters( caloParams ) ;
+	  gearMgr->setHcalEndcapParameters( caloParams.get() ) ;
 	
       }
     }
     
-    return caloParams ;
+    return caloParams.release() ;
   }
 
 
diff --git a/src/gearxml/ConstantBFieldXML.cc b/src/gearxml/ConstantBFieldXML.cc
index 1366b3b..50e404b 100644
--- a/src/gearxml/ConstantBFieldXML.cc
+++ b/src/gearxml/ConstantBFieldXML.cc
@@ -7,6 +7,7 @@
 #include "gearimpl/ConstantBField.h"
 // #include "gear/LayerLayout.h"
 #include "gear/GearMgr.h"
+#include <memory>
 
 
 namespace gear {
@@ -44,20 +45,20 @@ namespace gear {
     double by  =  atof(  getXMLAttribute( xmlElement , "y" ) .c_str() ) ;
     double bz  =  atof(  getXMLAttribute( xmlElement , "z" ) .c_str() ) ;
 
-    ConstantBField* bfield = new ConstantBField(   Vector3D( bx, by, bz)  )  ;
+    std::unique_ptr<ConstantBField> bfield( new ConstantBField(   Vector3D( bx, by, bz)  ) ) ;
     
     // now we can read the generic parameters
-    GearParametersXML::setParametersFromXML( xmlElement, bfield  ) ;    
+    GearParametersXML::setParametersFromXML( xmlElement, bfield.get()  ) ;    
 
 
     //--------- add to proper section in GearMgr ----
     if( gearMgr != 0 ) {
 
-      gearMgr->setBField( bfield ) ;	
+      gearMgr->setBField( bfield.get() ) ;	
 
     }
       
-    return bfield ;
+    return bfield.release() ;
   }
 
 
diff --git a/src/gearxml/FTDParametersXML.cc b/src/gearxml/FTDParametersXML.cc
index 1066c6a..bb8e7d6 100644
--- a/src/gearxml/FTDParametersXML.cc
+++ b/src/gearxml/FTDParametersXML.cc
@@ -11,6 +11,7 @@
 
 #include <vector>
 #include <string>
+#include <memory>
 
 namespace gear 
 {
@@ -100,7 +101,7 @@ namespace gear
 		
 
 		// create FTDParameters
-       	        FTDParametersImpl* ftdParam = new FTDParametersImpl() ;
+       	        std::unique_ptr<FTDParametersImpl> ftdParam( new FTDParametersImpl() ) ;
 		
 		// layers
 		const TiXmlNode* xmlLayers = xmlElement->FirstChildElement( "layers" ) ;
@@ -163,17 +164,17 @@ namespace gear
 		
 
 		// now read the generic parameters
-		GearParametersXML::setParametersFromXML( xmlElement, ftdParam  ) ;
+		GearParametersXML::setParametersFromXML( xmlElement, ftdParam.get()  ) ;
 		
 
 		// ------- add to GearMgr ----
 		if( gearMgr != 0 ) 
 		{
-			gearMgr->setFTDParameters( ftdParam ) ;
+			gearMgr->setFTDParameters( ftdParam.get() ) ;
 			
 		}
 		
-		return ftdParam ;
+		return ftdParam.release() ;
 	} // fromXML
 
 } // namespace
diff --git a/src/gearxml/GearParametersXML.cc b/src/gearxml/GearParametersXML.cc
index 9cbc142..ad978a6 100644
--- a/src/gearxml/GearParametersXML.cc
+++ b/src/gearxml/GearParametersXML.cc
@@ -8,6 +8,7 @@
 #include <algorithm>
 #include <sstream>
 #include <iomanip>
+#include <memory>
 
 
 namespace gear {
@@ -75,22 +76,22 @@ namespace gear {
   GearParameters* GearParametersXML::fromXML( const TiXmlElement* xmlElement, GearMgr* gearMgr) const {
     
 
-    GearParametersImpl* gearParams = new GearParametersImpl ;
+    std::unique_ptr<GearParametersImpl> gearParams( new GearParametersImpl ) ;
 
 
-    setParametersFromXML( xmlElement, gearParams  ) ;
+    setParametersFromXML( xmlElement, gearParams.get()  ) ;
 
 
     if( gearMgr != 0 ) {
 
       std::string name = getXMLAttribute( xmlElement , "name" ) ;
 
-      gearMgr->setGearParameters( name , gearParams ) ;
+      gearMgr->setGearParameters( name , gearParams.get() ) ;
 
     }
 
 
-    return gearParams ;
+    return gearParams.release() ;
   }
 
   void GearParametersXML::getXMLForParameters( TiXmlElement* xmlElement, 
diff --git a/src/gearxml/RectangularPadRowLayoutXML.cc b/src/gearxml/RectangularPadRowLayoutXML.cc
index d546a84..750e8a1 100644
--- a/src/gearxml/RectangularPadRowLayoutXML.cc
+++ b/src/gearxml/RectangularPadRowLayoutXML.cc
@@ -5,6 +5,7 @@
 #include "gearxml/tinyxml.h"
 #include "gearimpl/RectangularPadRowLayout.h"
 #include "gear/GearMgr.h"
+#include <memory>
 
 namespace gear {
   
@@ -85,7 +86,7 @@ namespace gear {
     if( repeatRowCount < 0 )
       throw ParseException( "RectangularPadRowLayoutXML: negative number of row repetitions" ) ;
 
-    RectangularPadRowLayout* padRowLayout = new RectangularPadRowLayout( xMin, xMax, yMin ) ;
+    std::unique_ptr<RectangularPadRowLayout> padRowLayout( new RectangularPadRowLayout( xMin, xMax, yMin ) ) ;
 
     // ----- rows ------------
     const TiXmlNode* row = 0 ;
@@ -108,7 +109,7 @@ namespace gear {
 
     padRowLayout->repeatRows( repeatRowCount ) ;
     
-    return padRowLayout ;
+    return padRowLayout.release() ;
   }
 
 }
diff --git a/src/gearxml/SiPlanesParametersXML.cc b/src/gearxml/SiPlanesParametersXML.cc
index b827c01..37f1bb2 100644
--- a/src/gearxml/SiPlanesParametersXML.cc
+++ b/src/gearxml/SiPlanesParametersXML.cc
@@ -13,6 +13,7 @@
 
  
 #include <cstring>
+#include <memory>
 
   /** Abstract description of layers in pixel beam telescope with or without DUT.
    *  This assumes a number of silicon layers, arranged perpendicular to the beam.
@@ -203,7 +204,7 @@ namespace gear {
 
 
     // create SiPlanesParameters
-    SiPlanesParametersImpl* siplanesParam = new SiPlanesParametersImpl( setupID, intType , nplanes) ;
+    std::unique_ptr<SiPlanesParametersImpl> siplanesParam( new SiPlanesParametersImpl( setupID, intType , nplanes) ) ;
 
     if (intType == SiPlanesParameters::TelescopeWithDUT) {
       const TiXmlNode* xmlDUT = xmlElement->FirstChildElement( "dut" ) ;
@@ -298,16 +299,16 @@ namespace gear {
 
 
     // now read the generic parameters
-    GearParametersXML::setParametersFromXML( xmlElement, siplanesParam  ) ;
+    GearParametersXML::setParametersFromXML( xmlElement, siplanesParam.get()  ) ;
     
     // ------- add to GearMgr ----
     if( gearMgr != 0 ) {
       
-      gearMgr->setSiPlanesParameters( siplanesParam ) ;
+      gearMgr->setSiPlanesParameters( siplanesParam.get() ) ;
 
     }
 
-    return siplanesParam ;
+    return siplanesParam.release() ;
 
   } // fromXML
 
diff --git a/src/gearxml/SimpleMaterialXML.cc b/src/gearxml/SimpleMaterialXML.cc
index 3346a8b..70e1948 100644
--- a/src/gearxml/SimpleMaterialXML.cc
+++ b/src/gearxml/SimpleMaterialXML.cc
@@ -8,6 +8,7 @@
 
 #include <string>
 #include <cstdlib>
+#include <memory>
 
 namespace gear {
   
@@ -44,15 +45,15 @@ namespace gear {
     double rL = atof( getXMLAttribute( xmlElement , "radLength" ).c_str() ) ;
     double iL = atof( getXMLAttribute( xmlElement , "intLength" ).c_str() ) ;
 
-    SimpleMaterialImpl* sm = new SimpleMaterialImpl( name , A , Z , d , rL , iL  ) ;
+    std::unique_ptr<SimpleMaterialImpl> sm( new SimpleMaterialImpl( name , A , Z , d , rL , iL  ) ) ;
 
     //--------- add to proper section in GearMgr ----
     if( gearMgr != 0 ) {
       
-      gearMgr->registerSimpleMaterial( sm ) ;
+      gearMgr->registerSimpleMaterial( sm.get() ) ;
     }
 
-    return sm  ;
+    return sm.release() ;
 
   } // fromXML
 
diff --git a/src/gearxml/TPCModuleXML.cc b/src/gearxml/TPCModuleXML.cc
index b9e9061..e9493a7 100644
--- a/src/gearxml/TPCModuleXML.cc
+++ b/src/gearxml/TPCModuleXML.cc
@@ -12,6 +12,7 @@
 
 #include <sstream>
 #include <typeinfo>
+#include <memory>
 
 namespace gear {
   
@@ -121,14 +122,17 @@ TPCModule* TPCModuleXML::fromXML( const TiXmlElement* moduleElement ,
 	throw ParseException( "TPCParametersXML::fromXML: no handler for " + layoutType + " found !" ) ;
     }
     
-    PadRowLayout2D* padLayout = padLayoutXML->fromXML( padLayoutElement ) ;
+    std::unique_ptr<PadRowLayout2D> padLayout( padLayoutXML->fromXML( padLayoutElement ) ) ;
     
     // now everything is there to create the module instance
     
-    TPCModuleImpl *tpcModule = new TPCModuleImpl( moduleID, 
-						  padLayout,
-						  tpcCoordinateType,
-						  readoutFrequency);
+    std::unique_ptr<TPCModuleImpl> tpcModule( new TPCModuleImpl( moduleID, 
+								 padLayout.get(),
+								 tpcCoordinateType,
+								 readoutFrequency) );
+
+    // the module owns the pad layout now
+    padLayout.release() ;
     
     // now search for the additional parameters: offset, angle, enlargeActiveAreaBy
     
@@ -178,9 +182,9 @@ TPCModule* TPCModuleXML::fromXML( const TiXmlElement* moduleElement ,
     }
 
     // now read the generic parameters
-    GearParametersXML::setParametersFromXML( moduleElement, tpcModule  ) ;
+    GearParametersXML::setParametersFromXML( moduleElement, tpcModule.get()  ) ;
 
-    return tpcModule;
+    return tpcModule.release();
 }// TPCModuleXML::fromXML 
 
 }//namespace gear
diff --git a/src/gearxml/TPCParametersXML.cc b/src/gearxml/TPCParametersXML.cc
index 7017261..37b6ae5 100644
--- a/src/gearxml/TPCParametersXML.cc
+++ b/src/gearxml/TPCParametersXML.cc
@@ -12,6 +12,7 @@
 
 #include <climits>
 #include <sstream>
+#include <memory>
 
 namespace gear {
   
@@ -101,7 +102,7 @@ namespace gear {
 	throw ParseException("TPCParametersXML::fromXML : Unknown coordinateType !");
 	
     
-    TPCParametersImpl* modularTPC = 0;
+    std::unique_ptr<TPCParametersImpl> modularTPC ;
 
     // check for old syntax
     if (oldsyntax)
@@ -127,12 +128,15 @@ namespace gear {
 	    throw ParseException( "TPCParametersXML::fromXML: no handler for " + layoutType + " found !" ) ;
 	}
 	
-	PadRowLayout2D* dLayout = layoutXML->fromXML( layout ) ;
+	std::unique_ptr<PadRowLayout2D> dLayout( layoutXML->fromXML( layout ) ) ;
 
 	// we can only create the module here because now we know the type of coordinate system
-	modularTPC =  new TPCParametersImpl( maxDriftLength , dLayout->getCoordinateType() ) ;
+	modularTPC.reset( new TPCParametersImpl( maxDriftLength , dLayout->getCoordinateType() ) ) ;
     
-	modularTPC->setPadLayout( dLayout ) ;
+	modularTPC->setPadLayout( dLayout.get() ) ;
+
+	// the module owns the pad layout now
+	dLayout.release() ;
     
 	// the module has to be set first, now the frequency can be set
 	modularTPC->setDriftVelocity(    atof(  getChildElementValue( xmlElement, "driftVelocity"    ).c_str() )) ;
@@ -142,7 +146,7 @@ namespace gear {
     else // new syntax with modules
     {
         // create the modular TPC
-        modularTPC = new TPCParametersImpl( maxDriftLength ,coordinateType ) ;
+        modularTPC.reset( new TPCParametersImpl( maxDriftLength ,coordinateType ) ) ;
 
 	modularTPC->setDriftVelocity( atof( getOptionalChildElementValue( xmlElement, "driftVelocity", "0." ).c_str() ) ) ;
 
@@ -206,25 +210,29 @@ namespace gear {
 		    throw ParseException("TPCParametersXML::fromXML: moduleIDStartCount out of range") ;
 
 		// finaly create the module from the xml element and add it to the TPC
-		modularTPC->addModule (_tpcModuleXML.fromXML(moduleElement,
-							     defaultModuleElement, 
-							     coordinateType,
-							     moduleIDStartCount +  moduleIDOffset++ ) );
+		std::unique_ptr<TPCModule> module( _tpcModuleXML.fromXML(moduleElement,
+									 defaultModuleElement, 
+									 coordinateType,
+									 moduleIDStartCount +  moduleIDOffset++ ) );
+		modularTPC->addModule( module.get() ) ;
+
+		// the TPC owns the module now
+		module.release() ;
 	    }
 	} 
 	
     } // else (oldsyntax)
 
     // now read the generic parameters
-    GearParametersXML::setParametersFromXML( xmlElement, modularTPC  ) ;
+    GearParametersXML::setParametersFromXML( xmlElement, modularTPC.get()  ) ;
 
     if( gearMgr != 0 )
     {
-	gearMgr->setTPCParameters( modularTPC ) ;
+	gearMgr->setTPCParameters( modularTPC.get() ) ;
     }
 	
     //std::cout << "GEARDEBUG: " << "TPCParametersXML: vector size is "<< modularTPC->getModules().size() << std::endl;
-    return modularTPC ;
+    return modularTPC.release() ;
  }// TPCParametersXML::fromXML 
     
 }//namespace gear
diff --git a/src/gearxml/TrackerPlanesParametersXML.cc b/src/gearxml/TrackerPlanesParametersXML.cc
index 8546d83..5685fb9 100644
--- a/src/gearxml/TrackerPlanesParametersXML.cc
+++ b/src/gearxml/TrackerPlanesParametersXML.cc
@@ -14,6 +14,7 @@
 
  
 #include <cstring>
+#include <memory>
 
   /** Abstract description of layers in pixel beam telescope .
    *  This assumes a number of silicon layers, arranged perpendicular to the beam.
@@ -140,7 +141,7 @@ namespace gear {
 
 
     // create TrackerPlanesParameters
-    TrackerPlanesParametersImpl* trackerplanesParam = new TrackerPlanesParametersImpl( setupID, intType , nplanes) ;
+    std::unique_ptr<TrackerPlanesParametersImpl> trackerplanesParam( new TrackerPlanesParametersImpl( setupID, intType , nplanes) ) ;
 
     // layers
     const TiXmlNode* xmlLayers = xmlElement->FirstChildElement( "layers" ) ;
@@ -215,16 +216,16 @@ namespace gear {
 
 
     // now read the generic parameters
-    GearParametersXML::setParametersFromXML( xmlElement, trackerplanesParam  ) ;
+    GearParametersXML::setParametersFromXML( xmlElement, trackerplanesParam.get()  ) ;
     
     // ------- add to GearMgr ----
     if( gearMgr != 0 ) {
       
-      gearMgr->setTrackerPlanesParameters( trackerplanesParam ) ;
+      gearMgr->setTrackerPlanesParameters( trackerplanesParam.get() ) ;
 
     }
 
-    return trackerplanesParam ;
+    return trackerplanesParam.release() ;
 
   } // fromXML
 
diff --git a/src/gearxml/VersatileDiskRowLayoutXML.cc b/src/gearxml/VersatileDiskRowLayoutXML.cc
index 8ef4d9d..16da962 100644
--- a/src/gearxml/VersatileDiskRowLayoutXML.cc
+++ b/src/gearxml/VersatileDiskRowLayoutXML.cc
@@ -6,6 +6,7 @@
 #include "gearxml/tinyxml.h"
 #include "gearimpl/VersatileDiskRowLayout.h"
 #include "gear/GearMgr.h"
+#include <memory>
 
 // #include <vector>
 // #include <algorithm>
@@ -55,7 +56,7 @@ namespace gear {
 
       double rMin = atof(  getXMLAttribute( xmlLayout , "rMin" ) .c_str() ) ;
 
-      VersatileDiskRowLayout * padLayout = new VersatileDiskRowLayout( rMin );
+      std::unique_ptr<VersatileDiskRowLayout> padLayout( new VersatileDiskRowLayout( rMin ) );
 
       const TiXmlNode* xmlRow = 0 ;
       while( ( xmlRow = xmlLayout->IterateChildren( "row", xmlRow ) )  != 0  ){
@@ -72,7 +73,7 @@ namespace gear {
 	  padLayout->addRow( nPad, padPitch, rowHeight, offset, padWidth, padHeight, repeat );	  
       }
 
-      return padLayout;
+      return padLayout.release();
   }
 
 }
diff --git a/src/gearxml/ZPlanarParametersXML.cc b/src/gearxml/ZPlanarParametersXML.cc
index ebbe39a..2966a33 100644
--- a/src/gearxml/ZPlanarParametersXML.cc
+++ b/src/gearxml/ZPlanarParametersXML.cc
@@ -11,6 +11,7 @@
 #include <vector>
 #include <string>
 #include <algorithm>
+#include <memory>
 
 namespace gear {
 
@@ -163,7 +164,7 @@ namespace gear {
     double shellRadLen = atof( getXMLAttribute( shell , "radLength" ) .c_str() ) ;
 
     // create VDXParameters
-    ZPlanarParametersImpl* param = new ZPlanarParametersImpl( intType , shellInnerR , shellOuterR , shellHalfLength , shellGap , shellRadLen ) ;
+    std::unique_ptr<ZPlanarParametersImpl> param( new ZPlanarParametersImpl( intType , shellInnerR , shellOuterR , shellHalfLength , shellGap , shellRadLen ) ) ;
 
     // layers
     const TiXmlNode* xmlLayers = xmlElement->FirstChildElement( "layers" ) ;
@@ -201,7 +202,7 @@ namespace gear {
 
       
     // now read the generic parameters
-    GearParametersXML::setParametersFromXML( xmlElement, param  ) ;
+    GearParametersXML::setParametersFromXML( xmlElement, param.get()  ) ;
 
 
     //--------- add to proper section in GearMgr ----
@@ -216,20 +217,20 @@ namespace gear {
       
       if( detName.find("vxd") != std::string::npos ){
 	
-	gearMgr->setVXDParameters( param ) ;	  
+	gearMgr->setVXDParameters( param.get() ) ;	  
       }
       else if(  detName.find("sit") != std::string::npos ){
 	
-	gearMgr->setSITParameters( param ) ;	  
+	gearMgr->setSITParameters( param.get() ) ;	  
       }
       else if(  detName.find("set") != std::string::npos ){
 	
-	gearMgr->setSETParameters( param ) ;	  
+	gearMgr->setSETParameters( param.get() ) ;	  
       }
       
     }
 
-    return param ;
+    return param.release() ;
 
   } // fromXML
 
-- 
2.43.0


From a6f59576ec9545d34646c9e38dde1a5bf9d42fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:02 +0000
Subject: [PATCH 103/104] fix: maximum radius, start angle and thickness of the
 disks at negative z were refused

---
 src/gearimpl/FTDLayerLayoutImpl.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gearimpl/FTDLayerLayoutImpl.cc b/src/gearimpl/FTDLayerLayoutImpl.cc
index 87d389a..bb9f9eb 100644
--- a/src/gearimpl/FTDLayerLayoutImpl.cc
+++ b/src/gearimpl/FTDLayerLayoutImpl.cc
@@ -171,11 +171,11 @@ double FTDLayerLayoutImpl::getMaxRadius(const int & layerIndex, const bool & sen
 	Layer l ;
 	if(!sensitive) 
 	{
-		l = _lVec.at( layerIndex );
+		l = _lVec.at( getEquivLayer( layerIndex ) );
 	}
 	else 
 	{
-		l = _sVec.at( layerIndex );
+		l = _sVec.at( getEquivLayer( layerIndex ) );
 	}
 	
 	return l.rInner+l.width;
@@ -188,10 +188,10 @@ double FTDLayerLayoutImpl::getMaxRadius(const int & layerIndex, const bool & sen
 	Layer l ;
 	if ( !sensitive ) 
 	{
-		l = _lVec.at( layerIndex ) ;
+		l = _lVec.at( getEquivLayer( layerIndex ) ) ;
 	}
 	else {
-		l = _sVec.at( layerIndex ) ;
+		l = _sVec.at( getEquivLayer( layerIndex ) ) ;
 	}
 
 	const double endphi = 0.0; // FIXME: PROV getPhiPetalCd(layerIndex,petalIndex,sensitive);
@@ -214,10 +214,10 @@ double FTDLayerLayoutImpl::getThicknessForAngle(const int & layerIndex,const dou
 {
 	Layer l ;
 	if (!sensitive) {
-		l = _lVec.at( layerIndex ) ;
+		l = _lVec.at( getEquivLayer( layerIndex ) ) ;
 	}
 	else {
-		l = _sVec.at( layerIndex ) ;
+		l = _sVec.at( getEquivLayer( layerIndex ) ) ;
 	}
 	
 	double angularThickness ;
-- 
2.43.0


From dd217a23474371dd26e393a456474b2042fd030e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:02 +0000
Subject: [PATCH 104/104] fix: reading and writing files depended on the locale
 of the program

---
 src/gearxml/GearParametersXML.cc |  3 +++
 src/gearxml/GearXML.cc           | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/src/gearxml/GearParametersXML.cc b/src/gearxml/GearParametersXML.cc
index ad978a6..36e96b1 100644
--- a/src/gearxml/GearParametersXML.cc
+++ b/src/gearxml/GearParametersXML.cc
@@ -8,6 +8,7 @@
 #include <algorithm>
 #include <sstream>
 #include <iomanip>
+#include <locale>
 #include <memory>
 
 
@@ -154,6 +155,7 @@ namespace gear {
 
       IntVec vec = gearParams->getIntVals( intVecKeys[i]  ) ;
       std::stringstream str ;
+      str.imbue( std::locale::classic() ) ;
       for(unsigned int j=0 ; j < vec.size() ; ++j ){
 	if( j!=0 ) 
 	  str << " " ; 
@@ -177,6 +179,7 @@ namespace gear {
       DoubleVec vec = gearParams->getDoubleVals( doubleVecKeys[i]  ) ;
 
       std::stringstream str ;
+      str.imbue( std::locale::classic() ) ;
       // maintain the same level of precision as for single double values
       str << std::scientific << std::setprecision(9) ;
       for(unsigned int j=0 ; j < vec.size() ; ++j ){
diff --git a/src/gearxml/GearXML.cc b/src/gearxml/GearXML.cc
index 9866d1f..b00645d 100644
--- a/src/gearxml/GearXML.cc
+++ b/src/gearxml/GearXML.cc
@@ -31,9 +31,37 @@
 #include <sstream>
 #include <iostream>
 #include <dlfcn.h>
+#include <locale.h>
+#ifdef __APPLE__
+#include <xlocale.h>
+#endif
 
 namespace gear{
 
+  namespace {
+
+    /** Numbers in GEAR files always have a decimal point: use it in this thread, whatever 
+     *  locale the program has chosen.
+     */
+    class DecimalPoint {
+    public:
+      DecimalPoint() : 
+	_locale( newlocale( LC_NUMERIC_MASK , "C" , duplocale( uselocale( (locale_t) 0 ) ) ) ) ,
+	_previous( uselocale( _locale ) ) {
+      }
+      ~DecimalPoint() {
+	uselocale( _previous ) ;
+	if( _locale != (locale_t) 0 )
+	  freelocale( _locale ) ;
+      }
+    private:
+      DecimalPoint( const DecimalPoint& ) ;
+      DecimalPoint& operator=( const DecimalPoint& ) ;
+      locale_t _locale ;
+      locale_t _previous ;
+    } ;
+
+  }
 
   GearXML::GearXML( const std::string& fileName ) : 
     _fileName( fileName ),
@@ -53,6 +81,8 @@ namespace gear{
       throw Exception("GearXML::createXMLFile: GearMgr dosn't exist");
     }
 
+    DecimalPoint decimalPoint ;
+
     TiXmlDocument doc( fileName )  ;
 
     TiXmlElement root("gear") ;
@@ -502,6 +532,8 @@ namespace gear{
 
   void GearXML::readFile() {
 
+    DecimalPoint decimalPoint ;
+
     
     // parse the XML file
     
-- 
2.43.0

