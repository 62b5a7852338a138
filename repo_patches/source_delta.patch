From 1d04708face6164e869fcf999c79a3c1c87b4173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 01/26] fix: return references into the element's own shell
 from getAugerRatios and getCosterKronigRatios

---
 src/fisx_element.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index b3292ba..a5f6ae5 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -1087,15 +1087,13 @@ const std::map<std::string, double> & Element::getFluorescenceRatios(const std::
 
 const std::map<std::string, double> & Element::getAugerRatios(std::string subshell)
 {
-    Shell shell;
-    shell = this->getShell(subshell);
+    const Shell & shell = this->getShell(subshell);
     return shell.getAugerRatios();
 }
 
 const std::map<std::string, std::map<std::string, double> > & Element::getCosterKronigRatios(std::string subshell)
 {
-    Shell shell;
-    shell = this->getShell(subshell);
+    const Shell & shell = this->getShell(subshell);
     return shell.getCosterKronigRatios();
 }
 
-- 
2.43.0


From aa3c1fd28cec450db142dd15a4b3ca00610ae1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 02/26] fix: initialise the scalar members left undetermined by
 constructors

---
 src/fisx_element.cpp   | 6 ++++++
 src/fisx_elements.cpp  | 8 ++++++++
 src/fisx_shell.cpp     | 2 ++
 src/fisx_xrfconfig.cpp | 1 +
 4 files changed, 17 insertions(+)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index a5f6ae5..f60240a 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -46,6 +46,9 @@ Element::Element()
     // Undefined atomic number
     this->atomicNumber = 0;
 
+    // Unset atomic mass
+    this->atomicMass = 0.0;
+
     // Unset density
     this->density = 1.0;
 
@@ -73,6 +76,9 @@ Element::Element(std::string name, int z = 0)
     // Give as long name the name as default
     this->longName = name;
 
+    // Unset atomic mass
+    this->atomicMass = 0.0;
+
     // Unset density
     this->density = 1.0;
 
diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 420d198..36e007c 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -155,6 +155,14 @@ void Elements::initialize(std::string epdl97Directory, std::string bindingEnergi
     std::string joinSymbol;
     std::string filename;
 
+    // The escape cache is disabled and empty
+    this->escapeCacheEnabled = 0;
+    this->detectorEnergyThresholdUsedInCache = 0.0;
+    this->detectorIntensityThresholdUsedInCache = 0.0;
+    this->detectorNThresholdUsedInCache = 0;
+    this->detectorAlphaInUsedInCache = 0.0;
+    this->detectorThicknessUsedInCache = 0.0;
+
     // Indicate we are going to configure everything
     this->shellConstantsFile["K"] = "";
     this->shellConstantsFile["L"] = "";
diff --git a/src/fisx_shell.cpp b/src/fisx_shell.cpp
index 3790d33..e1cb5bc 100644
--- a/src/fisx_shell.cpp
+++ b/src/fisx_shell.cpp
@@ -38,6 +38,8 @@ namespace fisx
 
 Shell::Shell()
 {
+    this->shellMainIndex = -1;
+    this->subshellIndex = 0;
     this->shellConstants["omega"] = 0.0;
 }
 
diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index 6689670..e7f0d62 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -36,6 +36,7 @@ namespace fisx
 
 XRFConfig::XRFConfig()
 {
+    this->referenceLayer = 0;
     this->setGeometry(45.0, 45.0, 90.);
 }
 
-- 
2.43.0


From f9f7ce08d2d651338bab11e5e004277a338dd1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:15 +0000
Subject: [PATCH 03/26] fix: handle elements without a contiguous set of shells
 and unknown element names in lookups

---
 src/fisx_element.cpp  | 43 +++++++++++++++++++++++++++++++++++--------
 src/fisx_elements.cpp |  5 +++++
 2 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index f60240a..8c45ad4 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -715,6 +715,11 @@ std::map<std::string, double> \
         if (shell != "all other")
         {
             c_itSingle = this->bindingEnergy.find(shell);
+            if (c_itSingle == this->bindingEnergy.end())
+            {
+                // the element does not have that shell
+                continue;
+            }
             if ((c_itSingle->second == 0.0) || (energy < c_itSingle->second))
             {
                 continue;
@@ -1137,8 +1142,8 @@ std::map<std::string, double> Element::getEmittedXRayLines(const double & energy
         shell_it = this->shellInstance.find(keys[i]);
         if(shell_it == this->shellInstance.end())
         {
-            // shell is not defined, we are done
-            return result;
+            // shell is not defined
+            continue;
         }
 
         c_it = this->bindingEnergy.find(keys[i]);
@@ -1257,8 +1262,13 @@ Element::getCascadeModifiedVacancyDistribution(const std::map<std::string, doubl
     std::map<std::string, double>::const_iterator bind_it;
 
     // get a complete initial distribution of vacancies
-    for (i = 0; i < this->shellInstance.size(); i++)
+    for (i = 0; i < 9; i++)
     {
+        if (this->shellInstance.find(keys[i]) == this->shellInstance.end())
+        {
+            // shell is not defined
+            continue;
+        }
         c_it = distribution.find(keys[i]);
         if (c_it != distribution.end())
         {
@@ -1272,15 +1282,23 @@ Element::getCascadeModifiedVacancyDistribution(const std::map<std::string, doubl
     }
 
     // update the distribution due to the cascade
-    for (i = 0; i < finalDistribution.size(); i++)
+    for (i = 0; i < 9; i++)
     {
+        shell_it = this->shellInstance.find(keys[i]);
+        if (shell_it == this->shellInstance.end())
+        {
+            continue;
+        }
         if(finalDistribution[keys[i]] > 0.0)
         {
             // we have initial vacancies in shell i
             // propagate to all the higher shells j
-            shell_it = this->shellInstance.find(keys[i]);
-            for (j = i + 1; j < finalDistribution.size(); j++)
+            for (j = i + 1; j < 9; j++)
             {
+                if (this->shellInstance.find(keys[j]) == this->shellInstance.end())
+                {
+                    continue;
+                }
                 rate = 0.0;
                 transferRatios.clear();
                 transferRatios = shell_it->second.getDirectVacancyTransferRatios(keys[j]);
@@ -1361,8 +1379,13 @@ Element::getXRayLinesFromVacancyDistribution(const std::map<std::string, double>
     else
     {
         // get a complete initial distribution of vacancies
-        for (i = 0; i < this->shellInstance.size(); i++)
+        for (i = 0; i < 9; i++)
         {
+            if (this->shellInstance.find(keys[i]) == this->shellInstance.end())
+            {
+                // shell is not defined
+                continue;
+            }
             c_it = distribution.find(keys[i]);
             if (c_it != distribution.end())
             {
@@ -1379,10 +1402,14 @@ Element::getXRayLinesFromVacancyDistribution(const std::map<std::string, double>
     // we have the final vacancy distribution accounting for cascade
     // we just have to generate the dictionary of rates and energies
     // for each transition
-    for (i = 0; i < finalDistribution.size(); i++)
+    for (i = 0; i < 9; i++)
     {
         // get all the fluorescence transitions to that shell
         shell_it = this->shellInstance.find(keys[i]);
+        if (shell_it == this->shellInstance.end())
+        {
+            continue;
+        }
         fluorescenceRatios = shell_it->second.getFluorescenceRatios();
         for (c_it = fluorescenceRatios.begin(); c_it != fluorescenceRatios.end(); c_it++)
         {
diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 36e007c..44ed3cc 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1159,6 +1159,11 @@ std::map<std::string, std::vector<double> > Elements::getMassAttenuationCoeffici
             massFraction = c_it->second / total;
             element = c_it->first;
             mapIterator = this->elementDict.find(element);
+            if (mapIterator == this->elementDict.end())
+            {
+                msg = "Name " + element + " not among defined elements";
+                throw std::invalid_argument(msg);
+            }
             tmpResult = this->elementList[mapIterator->second].getMassAttenuationCoefficients(energy[n]);
             result["coherent"][n] += tmpResult["coherent"] * massFraction;
             result["compton"][n] += tmpResult["compton"] * massFraction;
-- 
2.43.0


From c0f42c4cdc3c2a35ffde1e5b6ac2de190992fcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 04/26] fix: queries do not insert missing keys into the
 element nor depend on the history of calls

---
 src/fisx_element.cpp | 20 ++++++++++++++------
 src/fisx_epdl97.cpp  |  2 +-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index 8c45ad4..fdc060a 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -499,12 +499,13 @@ std::map<std::string, std::vector<double> > Element::getMassAttenuationCoefficie
 
 std::map<std::string, std::pair<double, int> > Element::extractEdgeEnergiesFromMassAttenuationCoefficients()
 {
-    if(this->mu["photoelectric"].size() < 1)
+    if(this->mu.find("photoelectric") == this->mu.end())
     {
         throw std::runtime_error("Photoelectric mass attenuation coefficients not initialized");
     }
-    return this->extractEdgeEnergiesFromMassAttenuationCoefficients(this->mu["energy"], \
-                                                                    this->mu["photoelectric"]);
+    // the energies are kept in muEnergy too
+    return this->extractEdgeEnergiesFromMassAttenuationCoefficients(this->muEnergy, \
+                                                        this->mu.find("photoelectric")->second);
 }
 
 std::map<std::string, std::pair<double, int> > \
@@ -527,6 +528,7 @@ std::map<std::string, std::pair<double, int> > \
     double energy;
     std::map<double, std::vector<double>::size_type> candidates;
     std::map<double, std::vector<double>::size_type>::const_iterator c_it;
+    std::map<std::string, double>::const_iterator bind_it;
 
     int    shellIndex;
 
@@ -571,10 +573,11 @@ std::map<std::string, std::pair<double, int> > \
             --c_it;
             energy = c_it->first;
             key = shellList[shellIndex];
-            if (this->bindingEnergy[key] > 0.0)
+            bind_it = this->bindingEnergy.find(key);
+            if ((bind_it != this->bindingEnergy.end()) && (bind_it->second > 0.0))
                 {
                 // check the energy is correct within 100 eV
-                if(fabs(energy - this->bindingEnergy[key]) < 0.100)
+                if(fabs(energy - bind_it->second) < 0.100)
                 {
                     result[key].first = energy;
                     result[key].second = (int) c_it->second;
@@ -664,9 +667,14 @@ void Element::setPartialPhotoelectricMassAttenuationCoefficients(const std::stri
     this->muPartialPhotoelectricValue[shell] = std::vector<double>(partialPhotoelectric);
     if (shell != "all other")
     {
+        double edge = 0.0;
+        if (this->bindingEnergy.find(shell) != this->bindingEnergy.end())
+        {
+            edge = this->bindingEnergy[shell];
+        }
         for (i = 1; i < length; i++)
         {
-            if (this->muPartialPhotoelectricEnergy[shell][i] < this->bindingEnergy[shell])
+            if (this->muPartialPhotoelectricEnergy[shell][i] < edge)
             {
                 this->muPartialPhotoelectricValue[shell][i] = 0.0;
             }
diff --git a/src/fisx_epdl97.cpp b/src/fisx_epdl97.cpp
index b19f6d9..72e0093 100644
--- a/src/fisx_epdl97.cpp
+++ b/src/fisx_epdl97.cpp
@@ -777,7 +777,7 @@ std::string EPDL97::toUpperCaseString(const std::string & str) const
 
 std::pair<long, long> EPDL97::getInterpolationIndices(const std::vector<double> & vec, const double & x) const
 {
-    static long lastI0 = 0L;
+    long lastI0 = 0L;
     std::vector<double>::size_type length, iMin, iMax, distance;
     int counter;
     std::pair<long, long> result;
-- 
2.43.0


From 564b4463fada052d82ec067eaeea8060c4b2eb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:58 +0000
Subject: [PATCH 05/26] fix: Shell setters validate their whole input before
 modifying the shell

---
 src/fisx_shell.cpp | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/fisx_shell.cpp b/src/fisx_shell.cpp
index e1cb5bc..9e7c09a 100644
--- a/src/fisx_shell.cpp
+++ b/src/fisx_shell.cpp
@@ -147,6 +147,10 @@ void Shell::setNonradiativeTransitions(std::vector<std::string> labels, std::vec
 {
     std::vector<int>::size_type i;
 
+    if (labels.size() != values.size())
+    {
+        throw std::invalid_argument("Number of labels does not match number of values");
+    }
     if (this->nonradiativeTransitions.size() > 0)
     {
         // empty current list
@@ -185,6 +189,7 @@ void Shell::setNonradiativeTransitions(std::map<std::string, double> inputMap)
 void Shell::setNonradiativeTransitions(const char *c_strings[], const double *values, int nValues)
 {
     int i;
+    this->nonradiativeTransitions.clear();
     for(i=0; i < nValues; i++)
     {
         this->nonradiativeTransitions[this->toUpperCaseString(std::string(c_strings[i]))] = values[i];
@@ -196,10 +201,11 @@ void Shell::setRadiativeTransitions(std::vector<std::string> labels, std::vector
 {
     std::string tmpString;
     std::vector<int>::size_type i;
-    if (this->radiativeTransitions.size() > 0)
+    std::map<std::string, double> transitions;
+
+    if (labels.size() != values.size())
     {
-        // empty current list
-        this->radiativeTransitions.clear();
+        throw std::invalid_argument("Number of labels does not match number of values");
     }
     for (i = 0; i != labels.size(); i++)
     {
@@ -224,7 +230,7 @@ void Shell::setRadiativeTransitions(std::vector<std::string> labels, std::vector
                 // energy will not be derived from the binding energies
                 // PyMca was deriving the energy skipping the last digit.
                 // std::cout << "setting key" << tmpString.substr(0, 4) << std::endl;
-                this->radiativeTransitions[tmpString.substr(0, 4)] = values[i];
+                transitions[tmpString.substr(0, 4)] = values[i];
                 // other alternative would be to generate two keys with half
                 // the rate as being closer to the real stuff. Nevertheless,
                 // both transitions would most likely be mixed due to the
@@ -241,13 +247,13 @@ void Shell::setRadiativeTransitions(std::vector<std::string> labels, std::vector
         {
             if (tmpString.substr(0, this->name.size()) == this->name)
             {
-                this->radiativeTransitions[tmpString] = values[i];
+                transitions[tmpString] = values[i];
             }
             else
             {
                 if(tmpString == "TOTAL")
                 {
-                    this->radiativeTransitions[tmpString] = values[i];
+                    transitions[tmpString] = values[i];
                 }
                 else
                 {
@@ -257,6 +263,8 @@ void Shell::setRadiativeTransitions(std::vector<std::string> labels, std::vector
             }
         }
     }
+    // checks finished, we can go ahead
+    this->radiativeTransitions = transitions;
     this->_updateFluorescenceRatios();
 }
 
@@ -646,16 +654,16 @@ void Shell::setShellConstants(std::map<std::string, double> shellConstants)
 
     for (c_it = shellConstants.begin(); c_it != shellConstants.end(); ++c_it)
     {
-        if(this->shellConstants.find(c_it->first) != this->shellConstants.end())
-        {
-            this->shellConstants[c_it->first] = c_it->second;
-        }
-        else
+        if(this->shellConstants.find(c_it->first) == this->shellConstants.end())
         {
             msg = "Invalid constant " + c_it->first + " for " + this->name +" shell";
             throw std::invalid_argument(msg);
         }
     }
+    for (c_it = shellConstants.begin(); c_it != shellConstants.end(); ++c_it)
+    {
+        this->shellConstants[c_it->first] = c_it->second;
+    }
 }
 
 const std::map<std::string, double> & Shell::getShellConstants() const
-- 
2.43.0


From b1c0a49e7ddc1952a8e29a78b442fb2326ac70e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 06/26] fix: Element drops cached results whenever binding
 energies or transitions change

---
 src/fisx_element.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index fdc060a..be4ae59 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -152,14 +152,10 @@ void Element::setBindingEnergies(std::map<std::string, double> bindingEnergies)
 {
     std::map<std::string, double>::iterator it;
     std::string tmpString;
-
-    // get rid of any shell definition
-    this->shellInstance.clear();
-    this->bindingEnergy.clear();
+    std::map<std::string, Shell> newShells;
 
     for (it = bindingEnergies.begin(); it != bindingEnergies.end(); ++it)
     {
-        this->bindingEnergy[it->first] = it->second;
         tmpString = "";
         if (it->first.size())
         {
@@ -168,18 +164,24 @@ void Element::setBindingEnergies(std::map<std::string, double> bindingEnergies)
         //std::cout << this->name << " " << it->first << " " << it->second << "tmp = " << tmpString << std::endl;
         if ((tmpString == "K") || (tmpString == "L") || (tmpString == "M"))
         {
-            if (this->shellInstance.find(it->first) == this->shellInstance.end())
+            if (newShells.find(it->first) == newShells.end())
             {
                 // instantiate the appropriate shell
                 // Shell constructor will take care of valid shells
                 // This uses default constructor ...
-                this->shellInstance[it->first] = Shell(it->first);
+                newShells[it->first] = Shell(it->first);
                 /* This does not require default constructor, but MSVC still requires it
                  this->shellInstance.insert\
                     (std::map<std::string, Shell>::value_type(it->first, Shell::Shell(it->first))); */
             }
         }
     }
+
+    // get rid of any shell definition and of anything calculated from it
+    this->shellInstance = newShells;
+    this->bindingEnergy = bindingEnergies;
+    this->emptyCascadeCache();
+    this->clearCache();
 }
 
 void Element::setBindingEnergies(std::vector<std::string> labels, std::vector<double> bindingEnergies)
@@ -1002,6 +1004,8 @@ void Element::setRadiativeTransitions(std::string subshell, \
         throw std::invalid_argument(msg);
     }
     this->shellInstance[subshell].setRadiativeTransitions(labels, values);
+    this->emptyCascadeCache();
+    this->clearCache();
 }
 
 void Element::setRadiativeTransitions(std::string subshell, std::map<std::string, double> values)
@@ -1019,6 +1023,7 @@ void Element::setRadiativeTransitions(std::string subshell, std::map<std::string
         throw std::invalid_argument("Requested shell is not a K, L or M subshell");
     }
     this->shellInstance[subshell].setRadiativeTransitions(values);
+    this->emptyCascadeCache();
     this->clearCache();
 }
 
@@ -1048,6 +1053,7 @@ void Element::setNonradiativeTransitions(std::string subshell, std::vector<std::
         throw std::invalid_argument("Requested shell is not a K, L or M subshell");
     }
     this->shellInstance[subshell].setNonradiativeTransitions(labels, values);
+    this->emptyCascadeCache();
     this->clearCache();
 }
 
@@ -1066,6 +1072,7 @@ void Element::setNonradiativeTransitions(std::string subshell, std::map<std::str
         throw std::invalid_argument("Requested shell is not a K, L or M subshell");
     }
     this->shellInstance[subshell].setNonradiativeTransitions(values);
+    this->emptyCascadeCache();
     this->clearCache();
 }
 
-- 
2.43.0


From 0635654f0bd3f2b9177f6e64a0ff4c43b4b4fc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 07/26] fix: Elements drops cached escape peaks whenever its
 elements or materials change

---
 src/fisx_elements.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 44ed3cc..40cd30d 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -310,6 +310,7 @@ void Elements::addElement(const Element & element)
 {
     std::string name;
     name = element.getName();
+    this->clearEscapeCache();
 
     if (this->elementDict.find(name) != this->elementDict.end())
     {
@@ -385,6 +386,8 @@ void Elements::setShellConstantsFile(const std::string & mainShellName, \
         subShells.push_back("M5");
     }
 
+    // anything calculated with the previous values is not valid any longer
+    this->clearEscapeCache();
     for (i = 0; i < nScans ; i++)
     {
         tmpLabels = sf.getScanLabels(i);
@@ -493,6 +496,8 @@ void Elements::setShellNonradiativeTransitionsFile(const std::string & mainShell
         subShells.push_back("M5");
     }
 
+    // anything calculated with the previous values is not valid any longer
+    this->clearEscapeCache();
     for (i = 0; i < nScans ; i++)
     {
         tmpLabels = sf.getScanLabels(i);
@@ -589,6 +594,8 @@ void Elements::setShellRadiativeTransitionsFile(const std::string & mainShellNam
         subShells.push_back("M5");
     }
 
+    // anything calculated with the previous values is not valid any longer
+    this->clearEscapeCache();
     for (i = 0; i < nScans ; i++)
     {
         tmpLabels = sf.getScanLabels(i);
@@ -755,6 +762,9 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
     // we are doing this because the only compilation providing subshell photoelectric cross sections
     // is EPDL97
 
+    // anything calculated with the previous values is not valid any longer
+    this->clearEscapeCache();
+
     // we reset the mass attenuation coefficients of the element to the EPDL97 values
     element = &(this->elementList[this->elementDict[name]]);
     atomicNumber = this->elementList[this->elementDict[name]].getAtomicNumber();
@@ -1216,6 +1226,7 @@ void Elements::addMaterial(const std::string & name, const double & density, \
         }
     }
     material.initialize(name, density, thickness, comment);
+    this->clearEscapeCache();
     this->materialList.push_back(material);
 
     // Try to set the composition from the name
@@ -1239,6 +1250,7 @@ void Elements::setMaterialComposition(const std::string & materialName, \
         msg = "Elements::setMaterialComposition. Non existing material: " +  materialName;
         throw std::invalid_argument(msg);
     }
+    this->clearEscapeCache();
     this->materialList[i].setComposition(names, amounts);
 }
 
@@ -1254,6 +1266,7 @@ void Elements::setMaterialComposition(const std::string & materialName, \
         msg = "Elements::setMaterialComposition. Non existing material: " +  materialName;
         throw std::invalid_argument(msg);
     }
+    this->clearEscapeCache();
     this->materialList[i].setComposition(composition);
 }
 
@@ -1308,6 +1321,7 @@ void Elements::addMaterial(const Material & material, const int & errorOnReplace
 
 
     materialName = material.getName();
+    this->clearEscapeCache();
 
     i = this->getMaterialIndexFromName(materialName);
     if (i < this->materialList.size())
@@ -1335,6 +1349,7 @@ void Elements::addMaterial(const Material & material, const int & errorOnReplace
 
 void Elements::removeMaterials()
 {
+    this->clearEscapeCache();
     this->materialList.clear();
 }
 
@@ -2145,6 +2160,7 @@ void Elements::removeMaterial(const std::string & name)
         msg = "Elements::setMaterialComposition. Non existing material: " +  name;
         throw std::invalid_argument(msg);
     }
+    this->clearEscapeCache();
     this->materialList.erase(this->materialList.begin() + i);
 }
 
-- 
2.43.0


From 75cd3b7bae7cd6156b14ede735e5cbf31d405d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:04 +0000
Subject: [PATCH 08/26] fix: do not run past the end of the data when
 interpolating photoelectric coefficients

---
 src/fisx_element.cpp | 28 +++++++++++++++++++++++++---
 src/fisx_epdl97.cpp  | 14 ++++++++++++--
 2 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index be4ae59..2c5435f 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -796,11 +796,16 @@ std::map<std::string, double> \
                         // according to the binding energies, the shell is excited, but the
                         // respective mass attenuation is zero. We have to extrapolate
                         i1w = i1;
-                        while(y_it->second[i1w] <= 0.0)
+                        while((i1w < (long) y_it->second.size()) && (y_it->second[i1w] <= 0.0))
                         {
                             i1w += 1;
                         }
                         i2w = i1w + 1;
+                        if (i2w >= (long) y_it->second.size())
+                        {
+                            // no data to extrapolate from
+                            continue;
+                        }
                         y0 = y_it->second[i1w];
                         y1 = y_it->second[i2w];
                         x0w = c_it->second[i1w];
@@ -856,15 +861,20 @@ std::map<std::string, double> \
                     // respective mass attenuation is zero. We have to extrapolate
                     // std::cout << "case b2" << std::endl;
                     i1w = i1;
-                    while(y_it->second[i1w] <= 0.0)
+                    while((i1w < (long) y_it->second.size()) && (y_it->second[i1w] <= 0.0))
                     {
                         i1w += 1;
                     }
                     i2w = i1w + 1;
+                    if (i2w >= (long) y_it->second.size())
+                    {
+                        // no data to extrapolate from
+                        continue;
+                    }
                     x0w = c_it->second[i1w];
                     x1w = c_it->second[i2w];
                     // check for duplicates
-                    if ((x1w - x0w) < 1.0E-10)
+                    if (((x1w - x0w) < 1.0E-10) && ((i2w + 1) < (long) y_it->second.size()))
                     {
                         i1w += 1;
                         i2w += 1;
@@ -1614,6 +1624,18 @@ std::pair<long, long> Element::getInterpolationIndices(const std::vector<double>
     std::pair<long, long> result;
     std::vector<double>::const_iterator c_it;
 
+    if (vec.size() < 2)
+    {
+        if (vec.size() < 1)
+        {
+            throw std::runtime_error("Cannot interpolate in an empty set of values");
+        }
+        // a single value, nothing to interpolate
+        result.first = 0;
+        result.second = 0;
+        return result;
+    }
+
     c_it = std::lower_bound(vec.begin(), vec.end(), x);
 
     if (c_it == vec.end())
diff --git a/src/fisx_epdl97.cpp b/src/fisx_epdl97.cpp
index 72e0093..54b03d9 100644
--- a/src/fisx_epdl97.cpp
+++ b/src/fisx_epdl97.cpp
@@ -468,11 +468,16 @@ std::map<std::string, double> EPDL97::getMassAttenuationCoefficients(const int &
                                 // according to the binding energies, the shell is excited, but the
                                 // respective mass attenuation is zero. We have to extrapolate
                                 i1w = i1;
-                                while((*pVector)[i1w][idx] <= 0.0)
+                                while((i1w < (long) pVector->size()) && ((*pVector)[i1w][idx] <= 0.0))
                                 {
                                     i1w += 1;
                                 }
                                 i2w = i1w + 1;
+                                if (i2w >= (long) pVector->size())
+                                {
+                                    // no data to extrapolate from
+                                    continue;
+                                }
                                 y0 = (*pVector)[i1w][idx];
                                 y1 = (*pVector)[i2w][idx];
                                 x0w = this->muEnergy[zHelp][i1w];
@@ -556,11 +561,16 @@ std::map<std::string, double> EPDL97::getMassAttenuationCoefficients(const int &
                         // extrapolation case
                         // We are forcing EPDL97 to respect a given set of binding energies
                         i1w = i1;
-                        while((*pVector)[i1w][idx] <= 0.0)
+                        while((i1w < (long) pVector->size()) && ((*pVector)[i1w][idx] <= 0.0))
                         {
                             i1w += 1;
                         }
                         i2w = i1w + 1;
+                        if (i2w >= (long) pVector->size())
+                        {
+                            // no data to extrapolate from
+                            continue;
+                        }
                         y0 = (*pVector)[i1w][idx];
                         y1 = (*pVector)[i2w][idx];
                         x0w = this->muEnergy[zHelp][i1w];
-- 
2.43.0


From b24f9eca9c41b0a6cf445d05d0d0c81872de4ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:28 +0000
Subject: [PATCH 09/26] fix: addMaterial leaves the list of materials unchanged
 when the new material is rejected

---
 src/fisx_elements.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 40cd30d..33934f2 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1220,21 +1220,24 @@ void Elements::addMaterial(const std::string & name, const double & density, \
             msg = "Elements::createMaterial. Already existing material: " +  name;
             throw std::invalid_argument(msg);
         }
-        else
-        {
-            this->removeMaterial(name);
-        }
     }
+
+    // prepare the new material prior to modify the list of materials
     material.initialize(name, density, thickness, comment);
-    this->clearEscapeCache();
-    this->materialList.push_back(material);
 
     // Try to set the composition from the name
     composition = this->getCompositionFromFormula(name);
     if (composition.size() > 0)
     {
-        this->setMaterialComposition(name, composition);
+        material.setComposition(composition);
     }
+
+    if (this->getMaterialIndexFromName(name) < this->materialList.size())
+    {
+        this->removeMaterial(name);
+    }
+    this->clearEscapeCache();
+    this->materialList.push_back(material);
 }
 
 void Elements::setMaterialComposition(const std::string & materialName, \
-- 
2.43.0


From f2a0c1eaae801ad8e35f4446f75e57eee1411f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 10/26] fix: Elements::setMassAttenuationCoefficients checks
 its input and only modifies the element on success

---
 src/fisx_elements.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 33934f2..c9938eb 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -740,6 +740,7 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
     std::map<std::string, std::pair<double, int> > extractedEdgeEnergies;
     std::vector<std::vector<double>::size_type> shellIndexList;
     std::string shellList[10] = {"K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5", "all other"};
+    Element newElement;
     Element *element;
     std::vector<double> newEnergyGrid;
     std::vector<double>::size_type i, j, shellIndex;
@@ -756,17 +757,30 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
         throw std::invalid_argument(msg);
     }
 
+    if (energy.size() < 1)
+    {
+        throw std::invalid_argument("Empty energy vector when setting mass attenuation coefficients");
+    }
+    if ((photoelectric.size() != energy.size()) || (coherent.size() != energy.size()) || \
+        (compton.size() != energy.size()))
+    {
+        throw std::invalid_argument("Size of mass attenuation coefficients not equal to energies size");
+    }
+    if ((pair.size() > 0) && (pair.size() != energy.size()))
+    {
+        throw std::invalid_argument("Size of pair production coefficients not equal to energies size");
+    }
 
     // we have to make sure the partial mass attenuation photoelectric coefficients and the total
     // photoelectric mass attenuation coefficients are self-consistent
     // we are doing this because the only compilation providing subshell photoelectric cross sections
     // is EPDL97
 
-    // anything calculated with the previous values is not valid any longer
-    this->clearEscapeCache();
+    // we work on a copy, the element is only replaced once everything went fine
+    newElement = this->elementList[this->elementDict[name]];
 
     // we reset the mass attenuation coefficients of the element to the EPDL97 values
-    element = &(this->elementList[this->elementDict[name]]);
+    element = &newElement;
     atomicNumber = this->elementList[this->elementDict[name]].getAtomicNumber();
     massAttenuationCoefficients = epdl97.getMassAttenuationCoefficients(atomicNumber);
 
@@ -789,7 +803,8 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
     // first calculate the appropriate energy grid
 
     j = 0;
-    while(massAttenuationCoefficients["energy"][j] < energy[0])
+    while((j < massAttenuationCoefficients["energy"].size()) && \
+          (massAttenuationCoefficients["energy"][j] < energy[0]))
     {
         j++;
     }
@@ -904,7 +919,7 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
     // pair
     for (i = j; i < newEnergyGrid.size(); i++)
     {
-        massAttenuationCoefficients["pair"][i] = pair[i - j];
+        massAttenuationCoefficients["pair"][i] = pair.size() ? pair[i - j] : 0.0;
     }
 
     // photoelectric
@@ -993,6 +1008,10 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
                                             massAttenuationCoefficients["energy"], \
                                             massAttenuationCoefficients[shell]);
     }
+
+    // anything calculated with the previous values is not valid any longer
+    this->clearEscapeCache();
+    this->elementList[this->elementDict[name]] = newElement;
 }
 
 
-- 
2.43.0


From 8db4679d7b9265550f428e34585a11a502656eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 11/26] fix: the cascade cache gives the same answers as the
 calculation and is never left incomplete

---
 src/fisx_element.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index 2c5435f..ca98c8f 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -1376,10 +1376,8 @@ Element::getXRayLinesFromVacancyDistribution(const std::map<std::string, double>
                 cacheKey = cascadeCache.find(c_it->first);
                 if (cacheKey == cascadeCache.end())
                 {
-                    std::cout << this->name << " Error processing vacancy on shell " << c_it->first << std::endl;
-                    throw std::runtime_error("Vacancy in a shell not present in the cache!");
-                    // the above is not good, there can be no emission following a vacancy (rate too low)
-                    // it seems to be triggered by As L1 vacancies
+                    // not a shell of this element: it does not contribute, as when the cache is not used
+                    continue;
                 }
                 for(std::map<std::string, std::map<std::string, double> >::const_iterator rayIt = \
                     cacheKey->second.begin(); rayIt != cacheKey->second.end(); ++rayIt)
@@ -1697,7 +1695,17 @@ void Element::fillCascadeCache()
             // this is needed because otherways it uses the cache when filling the cache :-)
             this->cascadeCacheEnabledFlag = false;
         }
-        this->cascadeCache[subshell] = this->getXRayLinesFromVacancyDistribution(tmpDistribution, 1, 1);
+        try
+        {
+            this->cascadeCache[subshell] = this->getXRayLinesFromVacancyDistribution(tmpDistribution, 1, 1);
+        }
+        catch(...)
+        {
+            // do not leave an incomplete cache behind
+            this->cascadeCache.clear();
+            this->cascadeCacheEnabledFlag = oldFlag;
+            throw;
+        }
         this->cascadeCacheEnabledFlag = oldFlag;
     }
     //std::cout << "cache filled for element " << this->name << std::endl;
-- 
2.43.0


From ccb5ccdec0c34b0070bea819cde6a33da41d7355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:24 +0000
Subject: [PATCH 12/26] fix: Beam::setBeam reads past the end of weight,
 characteristic and divergency lists shorter than the energies

---
 src/fisx_beam.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fisx_beam.cpp b/src/fisx_beam.cpp
index cc5095a..7d2da7e 100644
--- a/src/fisx_beam.cpp
+++ b/src/fisx_beam.cpp
@@ -27,6 +27,7 @@
 #############################################################################*/
 #include "fisx_beam.h"
 #include <algorithm>
+#include <stdexcept>
 
 namespace fisx
 {
@@ -47,6 +48,14 @@ void Beam::setBeam(const std::vector<double> & energy, \
     int defaultCharacteristic;
     double defaultDivergency;
 
+    // the optional values are given once or for each energy
+    if (((weight.size() > 1) && (weight.size() != energy.size())) || \
+        ((characteristic.size() > 1) && (characteristic.size() != energy.size())) || \
+        ((divergency.size() > 1) && (divergency.size() != energy.size())))
+    {
+        throw std::invalid_argument("Number of beam parameters does not match number of energies");
+    }
+
     this->normalized = false;
 
     if(energy.size() > 0)
-- 
2.43.0


From ca5baf172ea497c745fbb98ca97c3ace8bcfccd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:42 +0000
Subject: [PATCH 13/26] fix: a reference layer or sample layer index outside
 the sample leads to reading outside of it

---
 src/fisx_xrf.cpp       | 4 ++++
 src/fisx_xrfconfig.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/fisx_xrf.cpp b/src/fisx_xrf.cpp
index ca652ab..62d9b49 100644
--- a/src/fisx_xrf.cpp
+++ b/src/fisx_xrf.cpp
@@ -167,6 +167,10 @@ double XRF::getGeometricEfficiency(const int & sampleLayerIndex) const
         std::cout << "Negative sample layer index in getGeometricEfficiency " << sampleLayerIndex << std::endl;
         throw std::invalid_argument("Negative sample layer index in getGeometricEfficiency");
     }
+    if ((sampleLayerIndex > 0) && (sampleLayerIndex >= (int) sample.size()))
+    {
+        throw std::invalid_argument("Sample layer index must be smaller than number of layers");
+    }
     if (sampleLayerIndex != referenceLayerIndex)
     {
         if (sampleLayerIndex > referenceLayerIndex)
diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index e7f0d62..42e0ee8 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -552,6 +552,10 @@ void XRFConfig::setSample(const std::vector<Layer> & layers, const int & referen
     {
         throw std::invalid_argument("Reference layer must be smaller than number of layers");
     }
+    if (referenceLayer < 0)
+    {
+        throw std::invalid_argument("Reference layer cannot be negative");
+    }
     this->sample = layers;
     this->referenceLayer = referenceLayer;
 }
-- 
2.43.0


From b9214674dfaca55c707c4a0a90a5900f288059af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:02 +0000
Subject: [PATCH 14/26] fix: getMultilayerFluorescence reads past the end of
 family and layer lists of the wrong length

---
 src/fisx_multilayer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fisx_multilayer.cpp b/src/fisx_multilayer.cpp
index 1db398e..6010f2f 100644
--- a/src/fisx_multilayer.cpp
+++ b/src/fisx_multilayer.cpp
@@ -48,6 +48,12 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
                                                const double & secondaryCalculationLimit, \
                                                const Beam & overwritingBeam) const
 {
+    // there is a family per element and one layer for all or a layer per element
+    if ((familyList.size() != elementList.size()) || \
+        ((layerList.size() != 1) && (layerList.size() != elementList.size())))
+    {
+        throw std::invalid_argument("Number of families or layers does not match number of elements");
+    }
     // get all the needed configuration
     std::vector<std::vector<double> >actualRays = overwritingBeam.getBeamAsDoubleVectors();
     if (actualRays[0].size() < 1)
-- 
2.43.0


From 9ad1885076b8b50e5961bc0e21725f331a7ba397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:07 +0000
Subject: [PATCH 15/26] fix: material sections without density or thickness
 used undetermined values, a failed interpolation printed undetermined values

---
 src/fisx_element.cpp   | 2 +-
 src/fisx_xrfconfig.cpp | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index ca98c8f..e11c60a 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -704,7 +704,7 @@ std::map<std::string, double> \
     std::vector<std::string>::size_type i;
     std::pair<long, long> indices;
     long i1, i2, i1w, i2w;
-    double A, B, x0, x1, y0, y1, x0w, x1w;
+    double A = 0.0, B = 0.0, x0, x1, y0 = 0.0, y1 = 0.0, x0w, x1w;
     std::map<std::string, double >::const_iterator c_itSingle;
     std::map<std::string, std::vector<double> >::const_iterator c_it;
     std::map<std::string, std::vector<double> >::const_iterator y_it;
diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index 42e0ee8..c4d0d17 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -199,6 +199,12 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
                                             splitString,
                                             std::string(),
                                             '.');
+            // values to be used if not given in the file
+            comment = "";
+            density = 1.0;
+            thickness = 1.0;
+            compoundList.clear();
+            compoundFractions.clear();
             for (c_it = sectionContents.begin(); c_it != sectionContents.end(); ++c_it)
             {
                 key = c_it->first;
-- 
2.43.0


From c7163a5beda2a0e224c04d12e797fd1de223e247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 16/26] fix: composition of formulae with parentheses lost
 digits, and failed for numbers printed with an exponent

---
 src/fisx_elements.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index c9938eb..6738bea 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -31,6 +31,7 @@
 #include <cctype>
 #include <cmath>
 #include <sstream>
+#include <iomanip>
 #include <algorithm>
 #include <cstdlib>
 #include "fisx_elements.h"
@@ -1788,7 +1789,10 @@ std::map<std::string, double> Elements::parseFormula(const std::string & formula
         }
         for(it = tmpComposition.begin(); it != tmpComposition.end(); ++it)
         {
-            newFormula += it->first + this->toString(it->second * factor);
+            // all the digits are needed and the exponential notation is not accepted in formulae
+            std::ostringstream number;
+            number << std::fixed << std::setprecision(20) << (it->second * factor);
+            newFormula += it->first + number.str();
         }
         if (i < (formula.size()-1))
         {
-- 
2.43.0


From 54608fa169798a5537d061cee610e99ea75e26bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:34 +0000
Subject: [PATCH 17/26] fix: parseFormula drops a single character after the
 last parenthesis, and recurses without end if a parenthesis is closed before
 being opened

---
 src/fisx_elements.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 6738bea..f5a422f 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1740,6 +1740,11 @@ std::map<std::string, double> Elements::parseFormula(const std::string & formula
             p1 = openParenthesis[0];
         }
         p2 = closeParenthesis[0];
+        if (p2 < p1)
+        {
+            // closed before being opened
+            return composition;
+        }
         length = p2 - p1 - 1;
         if(length < 1)
         {
@@ -1794,7 +1799,7 @@ std::map<std::string, double> Elements::parseFormula(const std::string & formula
             number << std::fixed << std::setprecision(20) << (it->second * factor);
             newFormula += it->first + number.str();
         }
-        if (i < (formula.size()-1))
+        if (i < formula.size())
         {
             newFormula += formula.substr(i, formula.size() - i);
         }
-- 
2.43.0


From 0370f322776db2263bc9471c559cec607ce2c0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:37 +0000
Subject: [PATCH 18/26] fix: numbers in formulae and configuration files were
 read according to the global locale

---
 src/fisx_elements.cpp | 5 +++++
 src/fisx_simpleini.h  | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index f5a422f..5f7ed52 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -32,6 +32,7 @@
 #include <cmath>
 #include <sstream>
 #include <iomanip>
+#include <locale>
 #include <algorithm>
 #include <cstdlib>
 #include "fisx_elements.h"
@@ -1796,6 +1797,7 @@ std::map<std::string, double> Elements::parseFormula(const std::string & formula
         {
             // all the digits are needed and the exponential notation is not accepted in formulae
             std::ostringstream number;
+            number.imbue(std::locale::classic());
             number << std::fixed << std::setprecision(20) << (it->second * factor);
             newFormula += it->first + number.str();
         }
@@ -2025,6 +2027,8 @@ bool Elements::stringToDouble(const std::string& str, double& number)
 
     std::istringstream i(str);
 
+    // numbers are always written with a point
+    i.imbue(std::locale::classic());
     if (!(i >> number))
     {
         // Number conversion failed
@@ -2036,6 +2040,7 @@ bool Elements::stringToDouble(const std::string& str, double& number)
 std::string Elements::toString(const double& number)
 {
     std::ostringstream ss;
+    ss.imbue(std::locale::classic());
     ss << number;
     std::string s(ss.str());
     return s;
diff --git a/src/fisx_simpleini.h b/src/fisx_simpleini.h
index f8ad2d3..4b0cc16 100644
--- a/src/fisx_simpleini.h
+++ b/src/fisx_simpleini.h
@@ -96,6 +96,8 @@ public:
                                   const T & defaultValue)
     {
         std::stringstream stream(keyContent);
+        // numbers are always written with a point
+        stream.imbue(std::locale::classic());
         stream >> destination;
         if (stream.fail())
         {
@@ -126,6 +128,8 @@ public:
     static bool stringConverter(const std::string& str, T & number)
     {
         std::istringstream i(str);
+        // numbers are always written with a point
+        i.imbue(std::locale::classic());
         if (!(i >> number))
         {
             // Number conversion failed
-- 
2.43.0


From 13068f1f9c58159ef85f7c876405941cdf140f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:36 +0000
Subject: [PATCH 19/26] fix: SimpleSpecfile reported no error for a file that
 cannot be opened

---
 src/fisx_simplespecfile.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/fisx_simplespecfile.cpp b/src/fisx_simplespecfile.cpp
index e54bd53..7e06347 100644
--- a/src/fisx_simplespecfile.cpp
+++ b/src/fisx_simplespecfile.cpp
@@ -58,6 +58,10 @@ void SimpleSpecfile::setFileName(std::string fileName)
     std::ifstream fileInstance(fileName.c_str(), std::ios::in | std::ios::binary);
     std::streampos position;
 
+    if (!fileInstance.is_open())
+    {
+        throw std::ios_base::failure("File <" + fileName + "> not accessible");
+    }
     this->scanFilePositions.clear();
     this->scanPosition.clear();
     position = 0;
@@ -124,6 +128,11 @@ std::vector<std::string> SimpleSpecfile::getScanLabels(int scanIndex)
         throw std::invalid_argument("Not a valid scan index");
     }
 
+    if (!fileInstance.is_open())
+    {
+        throw std::ios_base::failure("File <" + this->fileName + "> not accessible");
+    }
+
     // This is very slow
     //for (i = 0; i < this->scanFilePositions[scanIndex].first; i++)
     //{
@@ -232,6 +241,11 @@ std::vector<std::vector<double> > SimpleSpecfile::getScanData(int scanIndex)
         throw std::invalid_argument("Not a valid scan index");
     }
 
+    if (!fileInstance.is_open())
+    {
+        throw std::ios_base::failure("File <" + this->fileName + "> not accessible");
+    }
+
     //for (i = 0; i < this->scanFilePositions[scanIndex].first; i++)
     //{
     //    std::getline(fileInstance, line);
-- 
2.43.0


From 6c8cf9c5c73d3a6faf0b8a3a1a6ba67601930ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:29 +0000
Subject: [PATCH 20/26] fix: accept str names and keys wherever the Python
 wrappers accept bytes

---
 python/cython/PyEPDL97.pyx   |  4 ++--
 python/cython/PyElement.pyx  | 22 ++++++++++------------
 python/cython/PyElements.pyx |  8 ++++----
 python/cython/PyXRF.pyx      |  7 ++++---
 4 files changed, 20 insertions(+), 21 deletions(-)

diff --git a/python/cython/PyEPDL97.pyx b/python/cython/PyEPDL97.pyx
index 3ef487b..2a2a5d0 100644
--- a/python/cython/PyEPDL97.pyx
+++ b/python/cython/PyEPDL97.pyx
@@ -50,8 +50,8 @@ cdef class PyEPDL97:
     def setDataDirectory(self, name):
         self.thisptr.setDataDirectory(toBytes(name))
 
-    def setBindingEnergies(self, int z, std_map[std_string, double] energies):
-        self.thisptr.setBindingEnergies(z, energies)
+    def setBindingEnergies(self, int z, energies):
+        self.thisptr.setBindingEnergies(z, toBytesKeys(energies))
 
     def getBindingEnergies(self, int z):
         return toStringKeys(self.thisptr.getBindingEnergies(z))
diff --git a/python/cython/PyElement.pyx b/python/cython/PyElement.pyx
index 5328eb9..69f964d 100644
--- a/python/cython/PyElement.pyx
+++ b/python/cython/PyElement.pyx
@@ -51,8 +51,8 @@ cdef class PyElement:
     def getAtomicNumber(self):
         return self.thisptr.getAtomicNumber()
 
-    def setBindingEnergies(self, std_map[std_string, double] energies):
-        self.thisptr.setBindingEnergies(energies)
+    def setBindingEnergies(self, energies):
+        self.thisptr.setBindingEnergies(toBytesKeys(energies))
 
     def getBindingEnergies(self):
         return self.thisptr.getBindingEnergies()
@@ -87,24 +87,23 @@ cdef class PyElement:
         return self.thisptr.getMassAttenuationCoefficients(energy)
                                        
     def setRadiativeTransitions(self, shell,
-                                std_vector[std_string] labels,
+                                labels,
                                 std_vector[double] values):
-        self.thisptr.setRadiativeTransitions(toBytes(shell), labels, values)
+        self.thisptr.setRadiativeTransitions(toBytes(shell), [toBytes(x) for x in labels], values)
 
     def getRadiativeTransitions(self, shell):
         return self.thisptr.getRadiativeTransitions(toBytes(shell))
 
     def setNonradiativeTransitions(self, shell,
-                                   std_vector[std_string] labels,
+                                   labels,
                                    std_vector[double] values):
-        self.thisptr.setNonradiativeTransitions(toBytes(shell), labels, values)
+        self.thisptr.setNonradiativeTransitions(toBytes(shell), [toBytes(x) for x in labels], values)
 
     def getNonradiativeTransitions(self, shell):
         return self.thisptr.getNonradiativeTransitions(toBytes(shell))
 
-    def setShellConstants(self, shell,
-                          std_map[std_string, double] valuesDict):
-        self.thisptr.setShellConstants(toBytes(shell), valuesDict)
+    def setShellConstants(self, shell, valuesDict):
+        self.thisptr.setShellConstants(toBytes(shell), toBytesKeys(valuesDict))
 
     def getShellConstants(self, shell):
         return self.thisptr.getShellConstants(toBytes(shell))
@@ -112,8 +111,7 @@ cdef class PyElement:
     #def getXRayLines(self, std_string shell):
     #    return self.thisptr.getXRayLines(shell)
                           
-    def getXRayLinesFromVacancyDistribution(self,
-                            std_map[std_string, double] vacancyDict):
+    def getXRayLinesFromVacancyDistribution(self, vacancyDict):
         return self.thisptr.getXRayLinesFromVacancyDistribution(\
-                                vacancyDict)
+                                toBytesKeys(vacancyDict))
 
diff --git a/python/cython/PyElements.pyx b/python/cython/PyElements.pyx
index 548974e..fc243d6 100644
--- a/python/cython/PyElements.pyx
+++ b/python/cython/PyElements.pyx
@@ -141,7 +141,7 @@ cdef class PyElements:
     def getColumn(self, element):
         return self.thisptr.getColumn(toBytes(element))
 
-    def getRow(self, std_string element):
+    def getRow(self, element):
         return self.thisptr.getRow(toBytes(element))
 
     def getMaterialNames(self):
@@ -191,13 +191,13 @@ cdef class PyElements:
             return toString(self.thisptr.getShellNonradiativeTransitionsFile(toBytes(mainShellName)))
 
     def setMassAttenuationCoefficients(self,
-                                       std_string element,
+                                       element,
                                        std_vector[double] energies,
                                        std_vector[double] photo,
                                        std_vector[double] coherent,
                                        std_vector[double] compton,
                                        std_vector[double] pair):
-        self.thisptr.setMassAttenuationCoefficients(element,
+        self.thisptr.setMassAttenuationCoefficients(toBytes(element),
                                                     energies,
                                                     photo,
                                                     coherent,
@@ -250,7 +250,7 @@ cdef class PyElements:
         calculated values via log-log interpolation in the internal table.
         """
         if hasattr(name, "keys"):
-            return self._getMaterialMassAttenuationCoefficients(toBytes(name), energy)
+            return self._getMaterialMassAttenuationCoefficients(toBytesKeys(name), energy)
         elif energy is None:
             return self._getElementDefaultMassAttenuationCoefficients(toBytes(name))
         elif hasattr(energy, "__len__"):
diff --git a/python/cython/PyXRF.pyx b/python/cython/PyXRF.pyx
index ba9c190..18d63af 100644
--- a/python/cython/PyXRF.pyx
+++ b/python/cython/PyXRF.pyx
@@ -42,7 +42,8 @@ from Beam cimport *
 cdef class PyXRF:
     cdef XRF *thisptr
 
-    def __cinit__(self, std_string configurationFile=""):
+    def __cinit__(self, configurationFile=""):
+        configurationFile = toBytes(configurationFile)
         if len(configurationFile):
             self.thisptr = new XRF(configurationFile)
         else:
@@ -125,8 +126,8 @@ cdef class PyXRF:
         cdef TransmissionTable t
         if instantiated:
             for item in pyTransmissionTableList:
-                name = item.getName()
-                comment = item.getComment()
+                name = toBytes(item.getName())
+                comment = toBytes(item.getComment())
                 table = item.getTransmissionTable()
                 t = TransmissionTable()
                 t.setTransmissionTable(table, name, comment)
-- 
2.43.0


From 21183fe02d597a188b4267e0032c624d8513c79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:36 +0000
Subject: [PATCH 21/26] fix: XRF.getLayerPeakFamilies, a single name in
 XRF.getFluorescence, array weights in Beam.setBeam

---
 python/cython/PyBeam.pyx |  2 +-
 python/cython/PyXRF.pyx  | 17 ++++++-----------
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/python/cython/PyBeam.pyx b/python/cython/PyBeam.pyx
index 98ed91c..509c704 100644
--- a/python/cython/PyBeam.pyx
+++ b/python/cython/PyBeam.pyx
@@ -54,7 +54,7 @@ cdef class PyBeam:
             energies = numpy.array([energies], dtype=numpy.float64)
         else:
             energies = numpy.asarray(energies, dtype=numpy.float64)
-        if weights:
+        if weights is not None:
             if not hasattr(weights, "__len__"):
                 weights = numpy.array([weights], numpy.float64)
             else:
diff --git a/python/cython/PyXRF.pyx b/python/cython/PyXRF.pyx
index 18d63af..8cd294c 100644
--- a/python/cython/PyXRF.pyx
+++ b/python/cython/PyXRF.pyx
@@ -299,10 +299,11 @@ cdef class PyXRF:
                              PyElements elementsLibrary):
         cdef std_map[std_string, double] composition
         composition.clear()
-        return toStringKeys(self.thisptr.getLayerPeakFamilies( \
+        tmpResult = self.thisptr.getLayerPeakFamilies( \
                                     deref(layerInstance.thisptr), \
                                     energy, deref(elementsLibrary.thisptr), \
-                                    composition))
+                                    composition)
+        return [(toString(x[0]), x[1]) for x in sorted(tmpResult, key=itemgetter(1))]
 
     def getMultilayerFluorescence(self, elementFamilyLayer, PyElements elementsLibrary, \
                             int secondary = 0, int useGeometricEfficiency = 1, int useMassFractions = 0, \
@@ -401,10 +402,7 @@ cdef class PyXRF:
         cdef std_vector[int] dummyIntVec
         cdef std_vector[double] dummyDoubleVec
 
-        if hasattr(elementNames[0], "__len__"):
-            # we have received a list of elements
-            pass
-        else:
+        if isinstance(elementNames, (bytes, str)):
             # we have a single element, convert to list
             elementNames = [elementNames]
 
@@ -415,11 +413,8 @@ cdef class PyXRF:
             # we should have received an integer, convert to list
             sampleLayer = [sampleLayer]
 
-        if len(lineFamily) and hasattr(lineFamily, "__len__"):
-            # we have received a list of peak families
-            pass
-        else:
-            # we should have a peak family, convert to list
+        if isinstance(lineFamily, (bytes, str)):
+            # we have a peak family, convert to list
             lineFamily = [lineFamily]
 
         # check the sizes match
-- 
2.43.0


From 780a41e70f298e28a4e00fdf4a2f21ccc1b29824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 22/26] fix: keep the Python Elements usable when
 initializeAsPyMca fails

---
 python/cython/PyElements.pyx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/cython/PyElements.pyx b/python/cython/PyElements.pyx
index fc243d6..e754775 100644
--- a/python/cython/PyElements.pyx
+++ b/python/cython/PyElements.pyx
@@ -76,6 +76,7 @@ cdef class PyElements:
         """
         Configure the instance to use the same set of data as PyMca.
         """
+        cdef Elements *previous
         import os
         try:
             from PyMca5 import getDataFile
@@ -87,8 +88,10 @@ cdef class PyElements:
         directoryName = DataDir.FISX_DATA_DIR
         bindingEnergies = getDataFile("BindingEnergies.dat")
         xcomFile = getDataFile("XCOM_CrossSections.dat")
-        del self.thisptr
+        # keep the current library if the new one cannot be created
+        previous = self.thisptr
         self.thisptr = new Elements(toBytes(directoryName), toBytes(bindingEnergies), toBytes(xcomFile))
+        del previous
         for shell in ["K", "L", "M"]:
             shellConstantsFile = getDataFile(shell+"ShellConstants.dat")
             self.thisptr.setShellConstantsFile(toBytes(shell),
@@ -101,6 +104,7 @@ cdef class PyElements:
         """
         Configure the instance to use the same set of data as PyMca.
         """
+        cdef Elements *previous
         import os
         try:
             from fisx import DataDir
@@ -113,8 +117,10 @@ cdef class PyElements:
             dataDir = directoryName
         bindingEnergies = os.path.join(dataDir, "BindingEnergies.dat")
         xcomFile = os.path.join(dataDir, "XCOM_CrossSections.dat")
-        del self.thisptr
+        # keep the current library if the new one cannot be created
+        previous = self.thisptr
         self.thisptr = new Elements(toBytes(directoryName), toBytes(bindingEnergies), toBytes(xcomFile))
+        del previous
         for shell in ["K", "L", "M"]:
             shellConstantsFile = os.path.join(dataDir, shell+"ShellConstants.dat")
             self.thisptr.setShellConstantsFile(toBytes(shell), toBytes(shellConstantsFile))
-- 
2.43.0


From 6c242f185ff91e2b0b1c51c903de1b76fac91d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 23/26] fix: translate the failures of Layer, EPDL97 and
 Element queries into Python exceptions

---
 python/cython/EPDL97.pxd  | 2 +-
 python/cython/Element.pxd | 2 +-
 python/cython/Layer.pxd   | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/cython/EPDL97.pxd b/python/cython/EPDL97.pxd
index ac0f035..dfe933a 100644
--- a/python/cython/EPDL97.pxd
+++ b/python/cython/EPDL97.pxd
@@ -38,7 +38,7 @@ cdef extern from "fisx_epdl97.h" namespace "fisx":
         EPDL97(std_string) except +
         void setDataDirectory(std_string) except +        
         void setBindingEnergies(int, std_map[std_string, double])  except +
-        std_map[std_string, double] & getBindingEnergies(int)
+        std_map[std_string, double] & getBindingEnergies(int) except +
                                                 
         std_map[std_string, std_vector[double]] getMassAttenuationCoefficients(int) except +
         std_map[std_string, double] getMassAttenuationCoefficients(int, double) except +
diff --git a/python/cython/Element.pxd b/python/cython/Element.pxd
index ad738a1..c44bc8d 100644
--- a/python/cython/Element.pxd
+++ b/python/cython/Element.pxd
@@ -55,7 +55,7 @@ cdef extern from "fisx_element.h" namespace "fisx":
 
         std_map[std_string, double] \
             extractEdgeEnergiesFromMassAttenuationCoefficients(std_vector[double],\
-                                                                std_vector[double])
+                                                                std_vector[double]) except +
         
         void setTotalMassAttenuationCoefficient(std_vector[double],\
                                                 std_vector[double]) except +
diff --git a/python/cython/Layer.pxd b/python/cython/Layer.pxd
index f40c34c..f5b7446 100644
--- a/python/cython/Layer.pxd
+++ b/python/cython/Layer.pxd
@@ -41,9 +41,9 @@ cdef extern from "fisx_layer.h" namespace "fisx":
     cdef cppclass Layer:
         Layer(std_string, double, double, double)
 
-        std_map[std_string, double] getComposition(Elements)
+        std_map[std_string, double] getComposition(Elements) except +
 
-        std_vector[double] getTransmission(std_vector[double], Elements, double)
+        std_vector[double] getTransmission(std_vector[double], Elements, double) except +
 
         void setMaterial(Material)
 
-- 
2.43.0


From 3c9caedde361931f6cbe4c15324296bad3eaeba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:39 +0000
Subject: [PATCH 24/26] fix: refuse None where the Python wrappers need a
 library object

---
 python/cython/PyDetector.pyx |  6 +++---
 python/cython/PyElements.pyx |  2 +-
 python/cython/PyLayer.pyx    |  8 ++++----
 python/cython/PyXRF.pyx      | 26 ++++++++++++++------------
 4 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/python/cython/PyDetector.pyx b/python/cython/PyDetector.pyx
index dd1ed0b..ad0bde4 100644
--- a/python/cython/PyDetector.pyx
+++ b/python/cython/PyDetector.pyx
@@ -47,7 +47,7 @@ cdef class PyDetector:
     def __dealloc__(self):
         del self.thisptr
 
-    def getTransmission(self, energies, PyElements elementsLib, double angle=90.):
+    def getTransmission(self, energies, PyElements elementsLib not None, double angle=90.):
         if not hasattr(energies, "__len__"):
             energies = numpy.array([energies], numpy.float64)
         return self.thisptr.getTransmission(energies, deref(elementsLib.thisptr), angle)
@@ -73,7 +73,7 @@ cdef class PyDetector:
     def setMaximumNumberOfEscapePeaks(self, int n):
         self.thisptr.setMaximumNumberOfEscapePeaks(n)
 
-    def getEscape(self, double energy, PyElements elementsLib, label="", int update=1):
+    def getEscape(self, double energy, PyElements elementsLib not None, label="", int update=1):
         label_ = toBytes(label)
         if sys.version < "3.0":
             if update:
@@ -104,7 +104,7 @@ cdef class PyDetector:
     def getDensity(self):
         return self.thisptr.getDensity()
 
-    def getComposition(self, PyElements elementsLib):
+    def getComposition(self, PyElements elementsLib not None):
         if sys.version < "3.0":
             return self.thisptr.getComposition(deref(elementsLib.thisptr))
         else:
diff --git a/python/cython/PyElements.pyx b/python/cython/PyElements.pyx
index e754775..25df835 100644
--- a/python/cython/PyElements.pyx
+++ b/python/cython/PyElements.pyx
@@ -162,7 +162,7 @@ cdef class PyElements:
     def __dealloc__(self):
         del self.thisptr
 
-    def addMaterial(self, PyMaterial material, int errorOnReplace=1):
+    def addMaterial(self, PyMaterial material not None, int errorOnReplace=1):
         self.thisptr.addMaterial(deref(material.thisptr), errorOnReplace)
 
     def setShellConstantsFile(self, mainShellName, fileName):
diff --git a/python/cython/PyLayer.pyx b/python/cython/PyLayer.pyx
index 5459820..2589304 100644
--- a/python/cython/PyLayer.pyx
+++ b/python/cython/PyLayer.pyx
@@ -49,7 +49,7 @@ cdef class PyLayer:
     def __dealloc__(self):
         del self.thisptr
 
-    def getComposition(self, PyElements elementsLib):
+    def getComposition(self, PyElements elementsLib not None):
         """
         getComposition(elementsLib)
 
@@ -58,7 +58,7 @@ cdef class PyLayer:
         """
         return toStringKeys(self.thisptr.getComposition(deref(elementsLib.thisptr)))
 
-    def getTransmission(self, energies, PyElements elementsLib, double angle=90.):
+    def getTransmission(self, energies, PyElements elementsLib not None, double angle=90.):
         """
         getTransmission(energies, ElementsLibraryInstance, angle=90.)
 
@@ -69,7 +69,7 @@ cdef class PyLayer:
             energies = numpy.array([energies], numpy.float64)
         return self.thisptr.getTransmission(energies, deref(elementsLib.thisptr), angle)
 
-    def setMaterial(self, PyMaterial material):
+    def setMaterial(self, PyMaterial material not None):
         """
         setMaterial(MaterialInstance)
 
@@ -77,7 +77,7 @@ cdef class PyLayer:
         """
         self.thisptr.setMaterial(deref(material.thisptr))
 
-    def getPeakFamilies(self, double energy, PyElements elementsLib):
+    def getPeakFamilies(self, double energy, PyElements elementsLib not None):
         """
         getPeakFamilies(energy, ElementsLibraryInstance)
 
diff --git a/python/cython/PyXRF.pyx b/python/cython/PyXRF.pyx
index 8cd294c..39c4fe9 100644
--- a/python/cython/PyXRF.pyx
+++ b/python/cython/PyXRF.pyx
@@ -200,6 +200,8 @@ cdef class PyXRF:
         return self.thisptr.setAttenuators(container)
 
     cdef void _addLayerToLayerVector(self, PyLayer layer, std_vector[Layer]& container):
+        if layer is None:
+            raise TypeError("Argument 'layer' must not be None")
         container.push_back(deref(layer.thisptr))
 
     def setUserAttenuators(self, pyTransmissionTableList):
@@ -212,7 +214,7 @@ cdef class PyXRF:
         """
         self._fillTransmissionTable(pyTransmissionTableList, "attenuator")
 
-    def setDetector(self, PyDetector detector):
+    def setDetector(self, PyDetector detector not None):
         self.thisptr.setDetector(deref(detector.thisptr))
 
     def setGeometry(self, double alphaIn, double alphaOut, double scatteringAngle = -90.0):
@@ -221,12 +223,12 @@ cdef class PyXRF:
         else:
             self.thisptr.setGeometry(alphaIn, alphaOut, scatteringAngle)
 
-    def getLayerComposition(self, PyLayer layerInstance, PyElements elementsLibrary):
+    def getLayerComposition(self, PyLayer layerInstance not None, PyElements elementsLibrary not None):
         return toStringKeys(self.thisptr.getLayerComposition(deref(layerInstance.thisptr),
                                                 deref(elementsLibrary.thisptr)))
 
-    def getLayerMassAttenuationCoefficients(self, PyLayer layerInstance, energies, \
-                                            PyElements elementsLibrary):
+    def getLayerMassAttenuationCoefficients(self, PyLayer layerInstance not None, energies, \
+                                            PyElements elementsLibrary not None):
         if not hasattr(energies, "__len__"):
             return toStringKeys(self._getLayerMassAttenuationCoefficientsSingle( \
                                     layerInstance, \
@@ -257,8 +259,8 @@ cdef class PyXRF:
                                     energies, deref(elementsLibrary.thisptr), \
                                     composition)
 
-    def getLayerTransmission(self, PyLayer layerInstance, energies, \
-                             PyElements elementsLibrary, angle=90.):
+    def getLayerTransmission(self, PyLayer layerInstance not None, energies, \
+                             PyElements elementsLibrary not None, angle=90.):
         if not hasattr(energies, "__len__"):
             return self._getLayerTransmissionSingle( \
                                     layerInstance, \
@@ -295,8 +297,8 @@ cdef class PyXRF:
                                     angle, \
                                     composition)
 
-    def getLayerPeakFamilies(self, PyLayer layerInstance, double energy, \
-                             PyElements elementsLibrary):
+    def getLayerPeakFamilies(self, PyLayer layerInstance not None, double energy, \
+                             PyElements elementsLibrary not None):
         cdef std_map[std_string, double] composition
         composition.clear()
         tmpResult = self.thisptr.getLayerPeakFamilies( \
@@ -305,9 +307,9 @@ cdef class PyXRF:
                                     composition)
         return [(toString(x[0]), x[1]) for x in sorted(tmpResult, key=itemgetter(1))]
 
-    def getMultilayerFluorescence(self, elementFamilyLayer, PyElements elementsLibrary, \
+    def getMultilayerFluorescence(self, elementFamilyLayer, PyElements elementsLibrary not None, \
                             int secondary = 0, int useGeometricEfficiency = 1, int useMassFractions = 0, \
-                            double secondaryCalculationLimit = 0.0, PyBeam overwritingBeam=PyBeam()):
+                            double secondaryCalculationLimit = 0.0, PyBeam overwritingBeam not None=PyBeam()):
         """
         Input
         elementFamilyLayer - Vector of strings. Each string represents the information we are interested on.
@@ -354,11 +356,11 @@ cdef class PyXRF:
                             secondary, useGeometricEfficiency, \
                             useMassFractions, secondaryCalculationLimit, deref(overwritingBeam.thisptr))
 
-    def getFluorescence(self, elementNames, PyElements elementsLibrary, \
+    def getFluorescence(self, elementNames, PyElements elementsLibrary not None, \
                             sampleLayer = 0, lineFamily="K", int secondary = 0, \
                             int useGeometricEfficiency = 1, int useMassFractions = 0, \
                             double secondaryCalculationLimit = 0.0,
-                            PyBeam overwritingBeam=PyBeam()):
+                            PyBeam overwritingBeam not None=PyBeam()):
 
         """
         Input
-- 
2.43.0


From 945448f63ca27b888a6c965b83b90bb964aff67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:43 +0000
Subject: [PATCH 25/26] fix: Elements.getMassAttenuationCoefficients answered
 bytes keys for a composition, text keys for a name

---
 python/cython/PyElements.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/cython/PyElements.pyx b/python/cython/PyElements.pyx
index 25df835..94862fe 100644
--- a/python/cython/PyElements.pyx
+++ b/python/cython/PyElements.pyx
@@ -302,7 +302,10 @@ cdef class PyElements:
 
     def _getMassAttenuationCoefficients(self, std_map[std_string, double] elementDict,
                                               std_vector[double] energy):
-        return self.thisptr.getMassAttenuationCoefficients(elementDict, energy, 0)
+        if sys.version < "3.0":
+            return self.thisptr.getMassAttenuationCoefficients(elementDict, energy, 0)
+        else:
+            return toStringKeys(self.thisptr.getMassAttenuationCoefficients(elementDict, energy, 0))
 
     def _getExcitationFactors(self, std_string element,
                                    std_vector[double] energies,
-- 
2.43.0


From acedba57c2e4594981e05160c699c376d99f4099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:21 +0000
Subject: [PATCH 26/26] fix: Elements::getComposition refuses a material
 defined in terms of itself

Such a definition (directly, or through other materials) recursed until the
stack was exhausted.
---
 src/fisx_elements.cpp | 37 ++++++++++++++++++++++++++++++++++---
 src/fisx_elements.h   |  7 +++++++
 2 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 5f7ed52..80db310 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1378,6 +1378,13 @@ void Elements::removeMaterials()
 }
 
 std::map<std::string, double> Elements::getComposition(const std::string & name) const
+{
+    std::vector<std::string> pending;
+    return this->expandComposition(name, pending);
+}
+
+std::map<std::string, double> Elements::expandComposition(const std::string & name, \
+                                                 std::vector<std::string> & pending) const
 {
     std::string msg;
     std::map<std::string, double> result;
@@ -1424,9 +1431,16 @@ std::map<std::string, double> Elements::getComposition(const std::string & name)
     }
 
     // now, a material can be made of formulas, elements or other materials.
+    // It cannot be made, directly or indirectly, of itself.
+    if (std::find(pending.begin(), pending.end(), name) != pending.end())
+    {
+        msg = "Material " + name + " is defined in terms of itself";
+        throw std::invalid_argument(msg);
+    }
+    pending.push_back(name);
     for (c_it = tmpResult.begin(); c_it != tmpResult.end(); ++c_it)
     {
-        composition = this->getComposition(c_it->first);
+        composition = this->expandComposition(c_it->first, pending);
         if (composition.size() < 1)
         {
             return composition;
@@ -1440,6 +1454,7 @@ std::map<std::string, double> Elements::getComposition(const std::string & name)
             result[c_it2->first] += composition[c_it2->first] * tmpResult[c_it->first];
         }
     }
+    pending.pop_back();
     return result;
 }
 
@@ -1484,6 +1499,15 @@ std::map<std::string, double> Elements::getComposition(const std::map<std::strin
 std::map<std::string, double> Elements::getComposition(const std::string & name, \
                                                  const std::vector<Material> & additionalMaterials) const
 {
+    std::vector<std::string> pending;
+    return this->expandComposition(name, additionalMaterials, pending);
+}
+
+std::map<std::string, double> Elements::expandComposition(const std::string & name, \
+                                                 const std::vector<Material> & additionalMaterials, \
+                                                 std::vector<std::string> & pending) const
+{
+    std::string msg;
     std::vector<Material>::size_type i;
     std::map<std::string, double> result;
     std::map<std::string, double> tmpResult;
@@ -1525,15 +1549,21 @@ std::map<std::string, double> Elements::getComposition(const std::string & name,
     if (tmpResult.size() < 1)
     {
         // throw an exception because we have an undefined material in the list of materials
-        std::string msg;
         msg = "Material " + name + " with empty or non-valid composition";
         throw std::invalid_argument(msg);
     }
     // We are dealing with a material that can be defined (or redefined) using the
     // supplied list and a material can be made of formulas, elements or other materials.
+    // It cannot be made, directly or indirectly, of itself.
+    if (std::find(pending.begin(), pending.end(), name) != pending.end())
+    {
+        msg = "Material " + name + " is defined in terms of itself";
+        throw std::invalid_argument(msg);
+    }
+    pending.push_back(name);
     for (c_it = tmpResult.begin(); c_it != tmpResult.end(); ++c_it)
     {
-        composition = this->getComposition(c_it->first, additionalMaterials);
+        composition = this->expandComposition(c_it->first, additionalMaterials, pending);
         if (composition.size() < 1)
         {
             return composition;
@@ -1547,6 +1577,7 @@ std::map<std::string, double> Elements::getComposition(const std::string & name,
             result[c_it2->first] += composition[c_it2->first] * tmpResult[c_it->first];
         }
     }
+    pending.pop_back();
     // make sure (again ?) that material is normalized
     total = 0;
     for (c_it = result.begin(); c_it != result.end(); ++c_it)
diff --git a/src/fisx_elements.h b/src/fisx_elements.h
index 73e590d..fb72425 100644
--- a/src/fisx_elements.h
+++ b/src/fisx_elements.h
@@ -591,6 +591,13 @@ private:
     // Utility function
     const std::vector<Material>::size_type getMaterialIndexFromName(const std::string & name) const;
 
+    // Utility functions, pending being the names of the materials being expanded
+    std::map<std::string, double> expandComposition(const std::string & name, \
+                                                 std::vector<std::string> & pending) const;
+    std::map<std::string, double> expandComposition(const std::string & name, \
+                                                 const std::vector<Material> & materials, \
+                                                 std::vector<std::string> & pending) const;
+
     // The files used for configuring the library
     std::map<std::string, std::string> shellConstantsFile;
     std::map<std::string, std::string> shellRadiativeTransitionsFile;
-- 
2.43.0

