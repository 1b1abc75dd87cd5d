From d94596c090c918362899c283be69cd6835c833dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:46 +0000
Subject: [PATCH 01/50] fix: fastPersistence read edges[1] of a complex that
 has no edges

---
 Pipes/fastPersistence.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index 3e5b9fd..889c21c 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -77,6 +77,10 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 	std::list<unsigned> pivots;										//Store identified pivots
 	unsigned pivotIndex = 0;
 		
+	//A complex without any edge has no 1-simplices to sweep
+	if(edges.size() < 2)
+		edges.push_back({});
+	
 	//For each edge set 
 	for(auto edge : edges[1]){		
 		bool foundPivot = false;
-- 
2.43.0


From 2937e11fb4a79293f5964627bd58150e74444ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:46 +0000
Subject: [PATCH 02/50] fix: fastPersistence reported a single component at the
 limit whatever their number

---
 Pipes/fastPersistence.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index 889c21c..273f032 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -147,9 +147,12 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 		bettis += "0,0," + std::to_string(z) + "\n";
 		
 	}
-	bettis += "0,0," + std::to_string(maxEpsilon) + "\n";
-	bettiBoundaryTableEntry des = { 0, 0, maxEpsilon, {} };
-	inData.bettiTable.push_back(des);
+	//Every component still separate at the limit keeps its own interval
+	for(auto c = mst.size(); c < edges[0].size(); c++){
+		bettis += "0,0," + std::to_string(maxEpsilon) + "\n";
+		bettiBoundaryTableEntry des = { 0, 0, maxEpsilon, {} };
+		inData.bettiTable.push_back(des);
+	}
 	
 	
 	
-- 
2.43.0


From 886f00badb21a962dec4165db2b528d4dd235279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:46 +0000
Subject: [PATCH 03/50] fix: fastPersistence dereferenced the end of the pivot
 list and skipped a row

---
 Pipes/fastPersistence.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index 273f032..923c0ad 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -205,7 +205,7 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 					//		-The row is a pivot of the column, closing an interval
 					//		-The row is not a pivot, needing to be XOR with the stored pivot
 					//		-The row does not intersect (0 or cleared from previous dimension)
-					if(*pivotPointer != pivotIndex){
+					if(pivotPointer == pivots.end() || *pivotPointer != pivotIndex){
 						
 						//Check for intersection
 						bool isCoface = std::includes(column_to_reduce.first.begin(), column_to_reduce.first.end(), row_to_check.first.begin(), row_to_check.first.end());
-- 
2.43.0


From e3c08f8aceb036e502d545b798f7cface7d2bebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:46 +0000
Subject: [PATCH 04/50] fix: fastPersistence paired each column with its oldest
 face instead of its youngest

---
 Pipes/fastPersistence.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index 923c0ad..aaeddab 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -222,8 +222,8 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 				}
 				//Reduce the column or store into the unordered map
 								
-				std::set<unsigned int>::iterator pIndex;
-				while((pIndex = cofaceList.begin()) != cofaceList.end()){
+				std::set<unsigned int>::reverse_iterator pIndex;
+				while((pIndex = cofaceList.rbegin()) != cofaceList.rend()){
 					if(v.find(*pIndex) == v.end()){
 						v[*pIndex] = cofaceList;
 						nextPivots.push_back(columnIndex);		
-- 
2.43.0


From 3efae677471f17ba04e26cbe0c001b0487783a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:47 +0000
Subject: [PATCH 05/50] fix: fastPersistence left intervals of edges opening a
 new component out of the betti table

---
 Pipes/fastPersistence.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index aaeddab..3c729e9 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -130,6 +130,8 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 			conSetTemp.push_back(edge.first);
 			pivots.push_back(pivotIndex);
 			mst.push_back(edge.second);
+			bettiBoundaryTableEntry des = { 0, 0, edge.second, edge.first };
+			inData.bettiTable.push_back(des);
 			
 		}
 		
-- 
2.43.0


From 8b9f24228cab97fee10aac4fc940d441b0d6743c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:47 +0000
Subject: [PATCH 06/50] fix: fastPersistence stored simplex positions as
 boundary points in the betti table

---
 Pipes/fastPersistence.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index 3c729e9..d89fd30 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -233,7 +233,12 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 						if(edges[d][*pIndex].second != edges[d+1][columnIndex].second){
 								bettis += std::to_string(d) + "," + std::to_string(edges[d][*pIndex].second) +"," + std::to_string(edges[d+1][columnIndex].second) + "\n";
 								
-							bettiBoundaryTableEntry des = { d, edges[d][*pIndex].second, edges[d+1][columnIndex].second, cofaceList };
+							//The boundary is recorded by its points, not by the positions of its simplices
+							std::set<unsigned> boundaryPoints;
+							for(auto row : cofaceList)
+								boundaryPoints.insert(edges[d][row].first.begin(), edges[d][row].first.end());
+								
+							bettiBoundaryTableEntry des = { d, edges[d][*pIndex].second, edges[d+1][columnIndex].second, boundaryPoints };
 							inData.bettiTable.push_back(des);
 						}
 											
-- 
2.43.0


From 712200c1721670eae1aeffb9f46fbbd4506e70e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:47 +0000
Subject: [PATCH 07/50] fix: reduced mode re-mapped intervals of earlier
 partitions with a later partition's indexing

---
 LHFmain/main.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/LHFmain/main.cpp b/LHFmain/main.cpp
index 3989770..b113ed6 100644
--- a/LHFmain/main.cpp
+++ b/LHFmain/main.cpp
@@ -129,6 +129,9 @@ void processReducedWrapper(std::map<std::string, std::string> args, pipePacket*
 			for(auto betEntry : wD->bettiTable)
 				mergedBettiTable.push_back(betEntry);
 			
+			//The next partition has its own indexing
+			wD->bettiTable.clear();
+			
 		} else 
 			std::cout << "skipping" << std::endl;
 	}
@@ -140,12 +143,15 @@ void processReducedWrapper(std::map<std::string, std::string> args, pipePacket*
 		runPipeline(args, wD);
 		
 		wD->complex->clear();
+		
+		for(auto betEntry : wD->bettiTable)
+			mergedBettiTable.push_back(betEntry);
 	} else 
 		std::cout << "skipping" << std::endl;
 	
 	std::cout << std::endl << "_______BETTIS_______" << std::endl;
 	
-	for(auto a : wD->bettiTable){
+	for(auto a : mergedBettiTable){
 		std::cout << a.bettiDim << ",\t" << a.birth << ",\t" << a.death << ",\t";
 		ut.print1DVector(a.boundaryPoints);
 	}
-- 
2.43.0


From ff3c6bf0a1db0992ede51703fa2337859b2b7fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:47 +0000
Subject: [PATCH 08/50] fix: mapPartitionIndexing mapped a copy of each table
 entry

---
 Utils/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils/utils.cpp b/Utils/utils.cpp
index 6ad28f2..945b6c7 100644
--- a/Utils/utils.cpp
+++ b/Utils/utils.cpp
@@ -86,7 +86,7 @@ void utils::mapPartitionIndexing(std::vector<unsigned> partitionedLabels, std::v
 	
 	//std::cout << "Part Labels: " << partitionedLabels.size() << std::endl;
 	
-	for(auto bet : bettiTable){
+	for(auto &bet : bettiTable){
 		std::set<unsigned> convBound;
 		
 		for(auto ind : bet.boundaryPoints){
-- 
2.43.0


From da14b93671da8860ebf9fe3ffa0ace2286f17dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:47 +0000
Subject: [PATCH 09/50] fix: simplexTree started from uninitialised head and
 node count

---
 Complex/simplexTree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Complex/simplexTree.hpp b/Complex/simplexTree.hpp
index f181543..d49f6bf 100644
--- a/Complex/simplexTree.hpp
+++ b/Complex/simplexTree.hpp
@@ -8,7 +8,7 @@ class simplexTree : public simplexBase {
   private:
 	bool isSorted = false;
 	unsigned indexCounter;
-	int nodeCount;
+	int nodeCount = 0;
 	std::vector<std::vector<std::pair<std::set<unsigned>, double>>> weightEdgeGraph;
 
 	void insertInductive();
@@ -23,7 +23,7 @@ class simplexTree : public simplexBase {
 		double weight = 0;
 	};
 
-	treeNode* head;
+	treeNode* head = nullptr;
 	std::vector<treeNode*> dimensions;
 
 	simplexTree(std::vector<std::vector<double>>);
-- 
2.43.0


From e08b920625b75c88fa1e0e1792cc7ccf7b63ff17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:47 +0000
Subject: [PATCH 10/50] fix: indSimplexTree started from uninitialised head and
 node count

---
 Complex/indSimplexTree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Complex/indSimplexTree.hpp b/Complex/indSimplexTree.hpp
index 633c8a1..eb715df 100644
--- a/Complex/indSimplexTree.hpp
+++ b/Complex/indSimplexTree.hpp
@@ -19,8 +19,8 @@ class indSimplexTree : public simplexBase {
 	std::vector<std::vector<indTreeNode*>> dimensions;		
 	
 	unsigned indexCounter;
-	indTreeNode* head;
-	int nodeCount;
+	indTreeNode* head = nullptr;
+	int nodeCount = 0;
   
   public:
 	std::vector<std::vector<graphEntry>> indexedGraph;
-- 
2.43.0


From 5ba2ae2382a456f1f88d26ba3311036179fc1342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:47 +0000
Subject: [PATCH 11/50] fix: simplexTree kept its sorted flag after a further
 insertion

---
 Complex/simplexTree.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Complex/simplexTree.cpp b/Complex/simplexTree.cpp
index 67650d2..5a020bb 100644
--- a/Complex/simplexTree.cpp
+++ b/Complex/simplexTree.cpp
@@ -282,6 +282,7 @@ void simplexTree::insert(std::vector<double>&) {
 	curNode->index = indexCounter;
 	std::set<unsigned> tempSet = {curNode->index};
 	runningVectorIndices.push_back(runningVectorCount);
+	isSorted = false;
 
 	//Check if this is the first node (i.e. head)
 	//	If so, initialize the head node
-- 
2.43.0


From b2205d36e6f63b5e8bb56772bc84be6f1a6f1bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:47 +0000
Subject: [PATCH 12/50] fix: simplexTree::clear dereferenced the head of an
 empty tree

---
 Complex/simplexTree.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Complex/simplexTree.cpp b/Complex/simplexTree.cpp
index 5a020bb..5e4526b 100644
--- a/Complex/simplexTree.cpp
+++ b/Complex/simplexTree.cpp
@@ -565,7 +565,8 @@ std::vector<std::pair<double, std::vector<unsigned>>> simplexTree::getd0Pairs(){
 void simplexTree::clear(){
 
 	//Clear the simplexTree structure
-	deletion(head);
+	if(head != nullptr)
+		deletion(head);
 	head = nullptr;
 
 	//Clear the weighed edge graph
-- 
2.43.0


From ee817df2e9d3c7c0e1207cc0a8e6c057a045a4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:47 +0000
Subject: [PATCH 13/50] fix: simplexTree::clear kept the indexing, node count
 and sorted flag of the removed complex

---
 Complex/simplexTree.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Complex/simplexTree.cpp b/Complex/simplexTree.cpp
index 5e4526b..8f0753a 100644
--- a/Complex/simplexTree.cpp
+++ b/Complex/simplexTree.cpp
@@ -577,9 +577,11 @@ void simplexTree::clear(){
 	dimensions.clear();
 
 
-	//runningVectorCount = 0;
+	runningVectorCount = 0;
 	runningVectorIndices.clear();
-	//indexCounter = 0;
+	indexCounter = 0;
+	nodeCount = 0;
+	isSorted = false;
 
 }
 
-- 
2.43.0


From da16c92011cede235d65a623a4472838fb5c3618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:47 +0000
Subject: [PATCH 14/50] fix: simplexTree::getDimEdges read past the stored
 dimensions

---
 Complex/simplexTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Complex/simplexTree.cpp b/Complex/simplexTree.cpp
index 8f0753a..f30b3f8 100644
--- a/Complex/simplexTree.cpp
+++ b/Complex/simplexTree.cpp
@@ -471,7 +471,7 @@ std::pair<std::vector<std::set<unsigned>>, std::vector<std::set<unsigned>>> simp
 std::vector<std::vector<unsigned>> simplexTree::getDimEdges(int d,double){
 	std::vector<std::vector<unsigned>> ret;
 
-	if(weightEdgeGraph.size() >= d){
+	if(d >= 0 && weightEdgeGraph.size() > d){
 		for(auto z : weightEdgeGraph[d]){
 			std::vector<unsigned> temp(z.first.begin(), z.first.end());
 			ret.push_back(temp);
-- 
2.43.0


From 1fb43d948ac9944dd7c075965e34854ed8076239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:47 +0000
Subject: [PATCH 15/50] fix: indSimplexTree counted simplices past the end of
 its dimension counters

---
 Complex/indSimplexTree.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Complex/indSimplexTree.cpp b/Complex/indSimplexTree.cpp
index 6312fdf..fb7ab85 100644
--- a/Complex/indSimplexTree.cpp
+++ b/Complex/indSimplexTree.cpp
@@ -192,6 +192,8 @@ void indSimplexTree::recurseInsert(indTreeNode* node, unsigned curIndex, int dep
 		std::set<unsigned> newSimp = simp;
 		newSimp.insert(node->index);
 		insNode->simplexSet = newSimp;
+		if(dimCounts.size() <= depth+1)
+			dimCounts.resize(depth+2, 0);
 		dimCounts[depth+1]++;
 		
 		//Get the largest weight of this simplex
-- 
2.43.0


From 80d23b37179faf600d63e50bf4ef85f98bc33f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:47 +0000
Subject: [PATCH 16/50] fix: indSimplexTree::vertexCount returned the number of
 simplices

---
 Complex/indSimplexTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Complex/indSimplexTree.cpp b/Complex/indSimplexTree.cpp
index fb7ab85..2665cfa 100644
--- a/Complex/indSimplexTree.cpp
+++ b/Complex/indSimplexTree.cpp
@@ -567,7 +567,7 @@ bool indSimplexTree::deletion(indTreeNode* removalEntry) {
 
 int indSimplexTree::vertexCount(){
 	//Return the number of vertices in the tree
-	return nodeCount;
+	return dimensions.empty() ? 0 : dimensions[0].size();
 }
 
 int indSimplexTree::simplexCount(){
-- 
2.43.0


From 1f3a841af7c18bb1bbd76059c10c1a3cbba03cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:47 +0000
Subject: [PATCH 17/50] fix: indSimplexTree returned a stale simplex list after
 a further insertion

---
 Complex/indSimplexTree.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Complex/indSimplexTree.cpp b/Complex/indSimplexTree.cpp
index 2665cfa..ccec240 100644
--- a/Complex/indSimplexTree.cpp
+++ b/Complex/indSimplexTree.cpp
@@ -358,6 +358,7 @@ void indSimplexTree::insert(std::vector<double>&) {
 	//Create our new node to insert
 	indTreeNode* curNode = new indTreeNode;
 	curNode->index = indexCounter;
+	isSorted = false;
 	
 	std::set<unsigned> tempSet = {curNode->index};
 	
-- 
2.43.0


From 9384ddf9cbab7d9633222a2ce8dad0caa80975fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:47 +0000
Subject: [PATCH 18/50] fix: kdTree::neighborhood pruned points lying exactly
 at the radius

---
 Preprocessing/kdTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Preprocessing/kdTree.cpp b/Preprocessing/kdTree.cpp
index 46184f8..b021bd4 100644
--- a/Preprocessing/kdTree.cpp
+++ b/Preprocessing/kdTree.cpp
@@ -268,7 +268,7 @@ pointIndexArr kdTree::neighborhood(const kdNodePtr &branch, const point &pt, con
 
     nbh_s = neighborhood(section, pt, rad, (level +1) % dim);
     nbh.insert(nbh.end(), nbh_s.begin(), nbh_s.end()); //Add points in neighborhood from that branch
-    if(abs(dx) < rad){ //Points in other branch may also be contained in neighborhood
+    if(std::abs(dx) <= rad){ //Points in other branch may also be contained in neighborhood
         nbh_o = neighborhood(other, pt, rad, (level+1)% dim);
         nbh.insert(nbh.end(), nbh_o.begin(), nbh_o.end());
     }
-- 
2.43.0


From c03526a9f3f0b081c742927209f34648284bc88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 19/50] fix: kMeansPlusPlus never classified the last point

---
 Preprocessing/kMeansPlusPlus.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Preprocessing/kMeansPlusPlus.cpp b/Preprocessing/kMeansPlusPlus.cpp
index 1239a0b..e9cb999 100644
--- a/Preprocessing/kMeansPlusPlus.cpp
+++ b/Preprocessing/kMeansPlusPlus.cpp
@@ -112,7 +112,7 @@ pipePacket kMeansPlusPlus::runPreprocessor(pipePacket inData){
 		std::vector<unsigned> curLabels;
 		
 		//For each point, classify it to a centroid
-		for (unsigned j = 0; j < inData.originalData.size() - 1; j++){
+		for (unsigned j = 0; j < inData.originalData.size(); j++){
 			double minDist = std::numeric_limits<double>::max();
 			unsigned clusterIndex = 0;
 			
-- 
2.43.0


From f1e058db42ad47bb8f2b68db54a772660679fe18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 20/50] fix: kMeansPlusPlus read past the data when it has
 fewer distinct points than clusters

---
 Preprocessing/kMeansPlusPlus.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Preprocessing/kMeansPlusPlus.cpp b/Preprocessing/kMeansPlusPlus.cpp
index e9cb999..6dc6813 100644
--- a/Preprocessing/kMeansPlusPlus.cpp
+++ b/Preprocessing/kMeansPlusPlus.cpp
@@ -81,7 +81,7 @@ pipePacket kMeansPlusPlus::runPreprocessor(pipePacket inData){
     }       
     
     int i = 0;
-    while(tempCentroids.size() < num_clusters){
+    while(tempCentroids.size() < num_clusters && i < inData.originalData.size()){
 		if(std::find(tempCentroids.begin(), tempCentroids.end(), inData.originalData[i]) == tempCentroids.end()){
 			tempCentroids.push_back(inData.originalData[i]);
 		}
@@ -106,9 +106,9 @@ pipePacket kMeansPlusPlus::runPreprocessor(pipePacket inData){
     //Iterate until we reach max iderations or no change in the classification
 	for (int z = 0; z < num_iterations; z++){
 		
-		std::vector<double> summedClusters(num_clusters, 0); 
-		std::vector<std::vector<double>> summedCentroidVectors(num_clusters, std::vector<double>(inData.originalData[0].size(), 0));
-		std::vector<double> counts(num_clusters, 0);
+		std::vector<double> summedClusters(tempCentroids.size(), 0); 
+		std::vector<std::vector<double>> summedCentroidVectors(tempCentroids.size(), std::vector<double>(inData.originalData[0].size(), 0));
+		std::vector<double> counts(tempCentroids.size(), 0);
 		std::vector<unsigned> curLabels;
 		
 		//For each point, classify it to a centroid
-- 
2.43.0


From 74bf521623e3ba83c3957cfd95e59a15fa652e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 21/50] fix: kMeansPlusPlus divided by zero for a centroid
 without points

---
 Preprocessing/kMeansPlusPlus.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Preprocessing/kMeansPlusPlus.cpp b/Preprocessing/kMeansPlusPlus.cpp
index 6dc6813..bd98b09 100644
--- a/Preprocessing/kMeansPlusPlus.cpp
+++ b/Preprocessing/kMeansPlusPlus.cpp
@@ -140,7 +140,11 @@ pipePacket kMeansPlusPlus::runPreprocessor(pipePacket inData){
 		//		Shift the centroid geometric centers to new centroids
 		for(int i = 0; i < summedCentroidVectors.size(); i++){
 			for(int d =0; d < summedCentroidVectors[0].size(); d++){
-				summedCentroidVectors[i][d] = summedCentroidVectors[i][d] / counts[i];
+				//A centroid without points stays where it is
+				if(counts[i] == 0)
+					summedCentroidVectors[i][d] = tempCentroids[i][d];
+				else
+					summedCentroidVectors[i][d] = summedCentroidVectors[i][d] / counts[i];
 			}
 		}
 		
-- 
2.43.0


From 7a53f2e19a30230058004ee313d48584851fae74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 22/50] fix: readInput dropped rows of one character and
 rejected line endings after a trailing comma

---
 Utils/readInput.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Utils/readInput.cpp b/Utils/readInput.cpp
index fb7285c..910acd5 100644
--- a/Utils/readInput.cpp
+++ b/Utils/readInput.cpp
@@ -61,11 +61,11 @@ std::vector<std::vector<double>> readInput::readCSV(std::string filename){
 bool readInput::parseDoubleVector(std::string line, std::vector<double> &row){
 	std::size_t pos = std::string::npos;
 	
-	// Replace whitespace in the current line
-	line = std::regex_replace(line, std::regex(" "), "");
+	// Replace whitespace (and line endings) in the current line
+	line = std::regex_replace(line, std::regex("[ \\r\\n]"), "");
 		
 	// Check if the line has a length (is not a blank line)
-	if(line.size() > 1){
+	if(line.size() > 0){
 			
 		// Iterate through each comma of the csv
 		while((pos = line.find_first_of(",")) != std::string::npos){
-- 
2.43.0


From 23f329d2118ef609dee49c0601e401b148180112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 23/50] fix: streamRead took a blank line for the end of the
 stream

---
 Utils/readInput.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Utils/readInput.cpp b/Utils/readInput.cpp
index 910acd5..8ba9732 100644
--- a/Utils/readInput.cpp
+++ b/Utils/readInput.cpp
@@ -161,14 +161,14 @@ bool readInput::streamRead(std::vector<double> &row){
 	if(pFile == NULL)
 		return false;
 	
-	//Check for EOF
-	if(fgets(streamBuffer, 1000, pFile) == NULL)
-		return false;
+	//Read until EOF; blank lines are skipped as in readCSV
+	while(fgets(streamBuffer, 1000, pFile) != NULL){
+		
+		//Parse our row
+		if(parseDoubleVector(streamBuffer, row))	
+			return true;
+	}
 	
-	//Parse our row
-	if(parseDoubleVector(streamBuffer, row))	
-		return true;
-	else
-		return false;
+	return false;
 }
 
-- 
2.43.0


From 80113af512a8eaedfa08225d719d78f959770107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 24/50] fix: readInput::streamRead read an uninitialised file
 handle before streamInit

---
 Utils/readInput.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils/readInput.hpp b/Utils/readInput.hpp
index 2cf9326..3f072c3 100644
--- a/Utils/readInput.hpp
+++ b/Utils/readInput.hpp
@@ -4,7 +4,7 @@
 
 class readInput {
   private:
-	FILE *pFile;
+	FILE *pFile = NULL;
 	char streamBuffer[1000];
 	bool parseDoubleVector(std::string, std::vector<double> &);
   
-- 
2.43.0


From edfb334befe7deeeaaf2ecd55a7672c666d73039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 25/50] fix: streamRead split a line longer than its buffer
 into several rows

---
 Utils/readInput.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Utils/readInput.cpp b/Utils/readInput.cpp
index 8ba9732..f92d985 100644
--- a/Utils/readInput.cpp
+++ b/Utils/readInput.cpp
@@ -164,8 +164,13 @@ bool readInput::streamRead(std::vector<double> &row){
 	//Read until EOF; blank lines are skipped as in readCSV
 	while(fgets(streamBuffer, 1000, pFile) != NULL){
 		
+		//Gather the remainder of a line longer than the buffer
+		std::string line = streamBuffer;
+		while(line.back() != '\n' && fgets(streamBuffer, 1000, pFile) != NULL)
+			line += streamBuffer;
+		
 		//Parse our row
-		if(parseDoubleVector(streamBuffer, row))	
+		if(parseDoubleVector(line, row))	
 			return true;
 	}
 	
-- 
2.43.0


From d4a7f1a5b8bbfc6a0b1c31e7e2ca5ceb979afb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 26/50] fix: writeMAT read the first row of an empty matrix

---
 Utils/writeOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils/writeOutput.cpp b/Utils/writeOutput.cpp
index 25165ea..c688985 100644
--- a/Utils/writeOutput.cpp
+++ b/Utils/writeOutput.cpp
@@ -97,7 +97,7 @@ bool writeOutput::writeCSV(std::string data, std::string filename, std::string h
 bool writeOutput::writeMAT(std::vector<std::vector<double>> data, std::string filename){
 	std::ofstream file(filename + ".mat");
 	
-	file << std::to_string(data.size()) << "\n" << std::to_string(data[0].size()) << "\n";
+	file << std::to_string(data.size()) << "\n" << std::to_string(data.empty() ? 0 : data[0].size()) << "\n";
 	for(auto row : data){
 		
 		for(auto column : row){
-- 
2.43.0


From 3557d637b1e7d95cf5165174fbadcf1085b79115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 27/50] fix: argParser::parse read past the arguments for a
 trailing flag without a value

---
 Utils/argParser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Utils/argParser.cpp b/Utils/argParser.cpp
index 0163ba3..6fb14d7 100644
--- a/Utils/argParser.cpp
+++ b/Utils/argParser.cpp
@@ -81,7 +81,11 @@ std::map<std::string, std::string> argParser::parse(int argc, char** argv){
 	std::map<std::string,std::string> retVal;
 	//Remove and map the initial arguments (may be led with -- or -)
 	for(int i = 1; i < argc; i=i+2){
-		if (std::string(argv[i]).substr(0,2) == "--"){
+		if (i + 1 >= argc){
+			//The last argument has no value
+			std::cout << "Invalid argument: " << argv[i] << std::endl << std::endl;
+			printUsage();
+		} else if (std::string(argv[i]).substr(0,2) == "--"){
 			retVal[std::string(argv[i]).substr(2)] = argv[i+1];
 		} else if (std::string(argv[i]).substr(0,1) == "-"){
 			retVal[std::string(argv[i]).substr(1)] = argv[i+1];
-- 
2.43.0


From 6e33ed06a22a118b80e56da24707e4ef89241492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 28/50] fix: reduceBoundaryMatrix read the width of a matrix
 whose rows were all removed

---
 Pipes/boundaryPipe.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Pipes/boundaryPipe.cpp b/Pipes/boundaryPipe.cpp
index c493891..d8282c5 100644
--- a/Pipes/boundaryPipe.cpp
+++ b/Pipes/boundaryPipe.cpp
@@ -58,7 +58,8 @@ std::pair<std::vector<std::vector<unsigned>>,std::pair<int,int>> boundaryPipe::r
 		return std::make_pair(ret,std::make_pair(0,0));
 		
 	//Step through each column and search for a 1 in that column
-	for(unsigned i = 0; i < boundaryMatrix[0].size(); i++){
+	unsigned columns = boundaryMatrix[0].size();
+	for(unsigned i = 0; i < columns; i++){
 		//Step through each vector
 		for(unsigned j = 0; j < boundaryMatrix.size(); j++){
 			
-- 
2.43.0


From 92031c7f7fd5d07c576f76ebf78fbca5024d3f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:30 +0000
Subject: [PATCH 29/50] fix: streamRead looked for the line ending of an empty
 string

---
 Utils/readInput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils/readInput.cpp b/Utils/readInput.cpp
index f92d985..4c58aad 100644
--- a/Utils/readInput.cpp
+++ b/Utils/readInput.cpp
@@ -166,7 +166,7 @@ bool readInput::streamRead(std::vector<double> &row){
 		
 		//Gather the remainder of a line longer than the buffer
 		std::string line = streamBuffer;
-		while(line.back() != '\n' && fgets(streamBuffer, 1000, pFile) != NULL)
+		while(!line.empty() && line.back() != '\n' && fgets(streamBuffer, 1000, pFile) != NULL)
 			line += streamBuffer;
 		
 		//Parse our row
-- 
2.43.0


From e971ff13de5477b2770489f3d147605d502908d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:30 +0000
Subject: [PATCH 30/50] fix: persistencePairs paired simplices without reducing
 their boundary and read past its table

---
 Pipes/persistencePairs.cpp | 31 +++++++++++++++++++++----------
 Pipes/persistencePairs.hpp |  1 +
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/Pipes/persistencePairs.cpp b/Pipes/persistencePairs.cpp
index fe33d53..0bce05d 100644
--- a/Pipes/persistencePairs.cpp
+++ b/Pipes/persistencePairs.cpp
@@ -236,20 +236,31 @@ pipePacket persistencePairs::runPipe(pipePacket inData){
 			tArray[curIndex].marked = true;
 			
 		} else {
-			int iter = tArray.size();
-			for(; iter >= 0; iter--){
-				if(tArray[iter].marked && tArray[iter].death < 0 && tArray[curIndex].simplex.size() != kSimplices[iter].size() && ut.setIntersect(kSimplices[iter], tArray[curIndex].simplex, false).size() == tArray[curIndex].simplex.size() - 1)
-					break;
+			//Marked faces of the simplex
+			std::set<unsigned> chain;
+			for(int iter = 0; iter < curIndex; iter++){
+				if(tArray[iter].marked && kSimplices[iter].size() + 1 == curDim && checkFace(kSimplices[iter], kSimplices[curIndex]))
+					chain.insert(iter);
 			}
-			if(iter != 0){
-				if(tArray[iter].death < 0 ){
-					tArray[iter].death = kWeights[curIndex];
-					
-					if(tArray[iter].death != tArray[iter].birth)
-						bettis += std::to_string(tArray[curIndex].simplex.size() - 2) + "," + std::to_string(tArray[iter].birth) + "," + std::to_string(kWeights[curIndex]) + "\n";
+			
+			//RemovePivotRows: eliminate with the chain stored for the youngest face until that face is unpaired
+			while(!chain.empty() && tArray[*chain.rbegin()].ti != -1){
+				for(auto index : tArray[*chain.rbegin()].chain){
+					if(!chain.erase(index))
+						chain.insert(index);
 				}
 			}
 			
+			if(!chain.empty()){
+				int iter = *chain.rbegin();
+				tArray[iter].ti = curIndex;
+				tArray[iter].chain.assign(chain.begin(), chain.end());
+				tArray[iter].death = kWeights[curIndex];
+				
+				if(tArray[iter].death != tArray[iter].birth)
+					bettis += std::to_string(curDim - 2) + "," + std::to_string(tArray[iter].birth) + "," + std::to_string(kWeights[curIndex]) + "\n";
+			}
+			
 			if(!kPivots.empty()){
 				kPivots.erase(kPivots.begin());
 				curPivot = *(kPivots.begin());
diff --git a/Pipes/persistencePairs.hpp b/Pipes/persistencePairs.hpp
index 6c39af1..0f5dffc 100644
--- a/Pipes/persistencePairs.hpp
+++ b/Pipes/persistencePairs.hpp
@@ -20,6 +20,7 @@ class persistencePairs : public basePipe {
 		double birth;
 		double death = -1;
 		std::set<unsigned> simplex;
+		std::vector<unsigned> chain;
 	};
 	bool alterPipe = false;
 	
-- 
2.43.0


From c8555b4178b0598598ec157f3fa90346ba0417ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:48 +0000
Subject: [PATCH 31/50] fix: persistencePairs dereferenced the end of its
 pivots after the last one

---
 Pipes/persistencePairs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Pipes/persistencePairs.cpp b/Pipes/persistencePairs.cpp
index 0bce05d..f5c4f65 100644
--- a/Pipes/persistencePairs.cpp
+++ b/Pipes/persistencePairs.cpp
@@ -263,7 +263,7 @@ pipePacket persistencePairs::runPipe(pipePacket inData){
 			
 			if(!kPivots.empty()){
 				kPivots.erase(kPivots.begin());
-				curPivot = *(kPivots.begin());
+				curPivot = kPivots.empty() ? -1 : *(kPivots.begin());
 			}
 		}
 	}
-- 
2.43.0


From 734dc785cc1992067921d7c977ce68aac52e6e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:48 +0000
Subject: [PATCH 32/50] fix: persistencePairs reported every class alive at the
 limit in dimension 0 and dropped the top dimension

---
 Pipes/persistencePairs.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Pipes/persistencePairs.cpp b/Pipes/persistencePairs.cpp
index f5c4f65..f0351ab 100644
--- a/Pipes/persistencePairs.cpp
+++ b/Pipes/persistencePairs.cpp
@@ -270,9 +270,9 @@ pipePacket persistencePairs::runPipe(pipePacket inData){
 	
 	
 	for(int t = 0; t < kSimplices.size(); t++){
-		if(tArray[t].marked && tArray[t].death == -1 && tArray[t].simplex.size() < dim){
-			ret[tArray[t].simplex.size()].push_back(std::make_pair(kWeights[t], maxEpsilon));
-			bettis += std::to_string(0) + "," + std::to_string(tArray[t].birth) + "," + std::to_string(maxEpsilon) + "\n";
+		if(tArray[t].marked && tArray[t].death == -1 && tArray[t].simplex.size() <= dim){
+			ret[tArray[t].simplex.size() - 1].push_back(std::make_pair(kWeights[t], maxEpsilon));
+			bettis += std::to_string(tArray[t].simplex.size() - 1) + "," + std::to_string(tArray[t].birth) + "," + std::to_string(maxEpsilon) + "\n";
 		}
 	}
 	
-- 
2.43.0


From c9466ccf892b8e0d97c60d589eb91ed6bfb21b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:48 +0000
Subject: [PATCH 33/50] fix: persistencePairs::getRankNull read the first row
 of an empty matrix

---
 Pipes/persistencePairs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Pipes/persistencePairs.cpp b/Pipes/persistencePairs.cpp
index f0351ab..42275b8 100644
--- a/Pipes/persistencePairs.cpp
+++ b/Pipes/persistencePairs.cpp
@@ -74,7 +74,7 @@ std::set<unsigned> persistencePairs::getRankNull(std::vector<std::vector<unsigne
 	std::set<unsigned> ret;
 	
 	//Step through each column and search for a one
-	for(unsigned i = 0; i < boundaryMatrix[0].size(); i++){
+	for(unsigned i = 0; i < (boundaryMatrix.empty() ? 0 : boundaryMatrix[0].size()); i++){
 		
 		//Step through each row
 		for(unsigned j = 0; j < boundaryMatrix.size(); j++){
-- 
2.43.0


From 288b15773dd4e7c2296f45ccd82d7b49f668634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 34/50] fix: slidingWindow looked for label !target instead of
 a label other than the target

---
 Pipes/slidingWindow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Pipes/slidingWindow.cpp b/Pipes/slidingWindow.cpp
index 20b4a45..f54f2a5 100644
--- a/Pipes/slidingWindow.cpp
+++ b/Pipes/slidingWindow.cpp
@@ -437,7 +437,7 @@ bool slidingWindow::nnBasedEvaluator(std::vector<double>& currentVector, std::ve
                 // we'll delete the oldest point from a partition label != targetPartition label.
 
                 // Find the first occurrence of a partition label != targetPartition label.
-                defaultVals->indexToBeDeleted = std::find( defaultVals->partitionLabels.begin(), defaultVals->partitionLabels.end(), !defaultVals->targetPartition ) - defaultVals->partitionLabels.begin();
+                defaultVals->indexToBeDeleted = std::find_if( defaultVals->partitionLabels.begin(), defaultVals->partitionLabels.end(), [](int label){ return label != defaultVals->targetPartition; } ) - defaultVals->partitionLabels.begin();
                 defaultVals->labelToBeDeleted = defaultVals->partitionLabels[defaultVals->indexToBeDeleted];
 
                 deleteNNstats();
-- 
2.43.0


From 9884bb341c541e170cb30406cf0106fad797784e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 35/50] fix: slidingWindow never added a point to the
 statistics of a window with several partitions

---
 Pipes/slidingWindow.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Pipes/slidingWindow.cpp b/Pipes/slidingWindow.cpp
index f54f2a5..5846050 100644
--- a/Pipes/slidingWindow.cpp
+++ b/Pipes/slidingWindow.cpp
@@ -445,6 +445,9 @@ bool slidingWindow::nnBasedEvaluator(std::vector<double>& currentVector, std::ve
             }
         }
 
+        // Add to the distance matrix and update the NN statistics.
+        updateStats();
+
         return true;
     }
 
-- 
2.43.0


From 6c70f8bc0a90dd83fa70e0523a6e14f38559a877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 36/50] fix: slidingWindow kept the distances of evicted points
 in the distance matrix

---
 Pipes/slidingWindow.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Pipes/slidingWindow.cpp b/Pipes/slidingWindow.cpp
index 5846050..ba3c605 100644
--- a/Pipes/slidingWindow.cpp
+++ b/Pipes/slidingWindow.cpp
@@ -39,6 +39,11 @@ void slidingWindow::deleteNNstats()
 
     defaultVals->distsFromCurrVec.erase( defaultVals->distsFromCurrVec.begin() + defaultVals->indexToBeDeleted );
 
+    // Remove the row and the column of the point from the upper triangular distance matrix.
+    pPack->complex->distMatrix.erase( pPack->complex->distMatrix.begin() + defaultVals->indexToBeDeleted );
+    for(auto &row : pPack->complex->distMatrix)
+        row.erase( row.begin() + defaultVals->indexToBeDeleted );
+
     defaultVals->numPointsPartn[defaultVals->labelToBeDeleted] = defaultVals->numPointsPartn[defaultVals->labelToBeDeleted] - 1;
 
     // If there are no more points left in the partition from which the deletion took place:
@@ -241,6 +246,7 @@ void slidingWindow::updateStats()
         }
 
     }
+    defaultVals->distMatLastRow.assign( pPack->complex->distMatrix.size() + 1, 0 );
     pPack->complex->distMatrix.push_back( defaultVals->distMatLastRow );
 
     // Update the average NN distance of the partition from which the last point was deleted and of the one to which the new point
-- 
2.43.0


From 06baa37f5dd56db391d0c40b990f7bbf601efcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 37/50] fix: slidingWindow nearest neighbour positions were not
 moved up after a deletion

---
 Pipes/slidingWindow.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Pipes/slidingWindow.cpp b/Pipes/slidingWindow.cpp
index ba3c605..0bc00d6 100644
--- a/Pipes/slidingWindow.cpp
+++ b/Pipes/slidingWindow.cpp
@@ -80,12 +80,17 @@ void slidingWindow::updateStats()
     {
         pPack->complex->distMatrix[i].push_back( defaultVals->distsFromCurrVec[i] );
 
+        // Points behind the deleted one have moved up by one position.
+        bool nnDeleted = defaultVals->nnIndices[i] == defaultVals->indexToBeDeleted;
+        if ( defaultVals->nnIndices[i] > defaultVals->indexToBeDeleted )
+            defaultVals->nnIndices[i]--;
+
         // Update NN statistics for only those partitions from which the point was deleted or to which the new point is to be added.
         // Case 1: The i-th point belongs to the partition the last point was deleted from, but not to the partition the new point is
         // to be added to. And, the point that was deleted was the nearest neighbor of the i-th point.
         if ( defaultVals->partitionLabels[i] == defaultVals->labelToBeDeleted
                 &&  defaultVals->partitionLabels[i] != defaultVals->targetPartition
-                && defaultVals->nnIndices[i] == defaultVals->indexToBeDeleted )
+                && nnDeleted )
         {
 
             // If only one point remains in the partition from which the last point was deleted:
@@ -204,7 +209,7 @@ void slidingWindow::updateStats()
                 sumNewNNdists = sumNewNNdists + defaultVals->nnDists[i];
             }
 
-            else if ( defaultVals->nnIndices[i] == defaultVals->indexToBeDeleted )
+            else if ( nnDeleted )
             {
                 distsFromCurrVecTP.push_back( defaultVals->distsFromCurrVec[i] );
                 tpIndices.push_back(i);
-- 
2.43.0


From e822c02198fa3f7f7fc8aa46c3c2f1de5ec965b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 38/50] fix: slidingWindow searched for a new nearest neighbour
 past the end of the window

---
 Pipes/slidingWindow.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Pipes/slidingWindow.cpp b/Pipes/slidingWindow.cpp
index 0bc00d6..d1e984b 100644
--- a/Pipes/slidingWindow.cpp
+++ b/Pipes/slidingWindow.cpp
@@ -219,7 +219,11 @@ void slidingWindow::updateStats()
                 std::vector<double> memberDistsFromVect;
                 std::vector<int> memberIndices;
 
-                for(unsigned int j = 0; j < defaultVals->windowMaxSize; j++)
+                // The new point is a candidate as well.
+                memberDistsFromVect.push_back( defaultVals->distsFromCurrVec[i] );
+                memberIndices.push_back( defaultVals->windowMaxSize - 1 );
+
+                for(unsigned int j = 0; j < pPack->complex->distMatrix.size(); j++)
                 {
                     if ( defaultVals->partitionLabels[j] == defaultVals->labelToBeDeleted )
                     {
-- 
2.43.0


From 061307f5e3b0afe246f746098a85bf0b284bfb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:38 +0000
Subject: [PATCH 39/50] fix: setUnion of a vector with itself returned nothing

---
 Utils/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils/utils.cpp b/Utils/utils.cpp
index 945b6c7..0d6b5b4 100644
--- a/Utils/utils.cpp
+++ b/Utils/utils.cpp
@@ -379,7 +379,7 @@ std::vector<unsigned> utils::setUnion(std::vector<unsigned> v1, std::vector<unsi
 	std::vector<unsigned> retTemp;
 	
 	if(v1 == v2)
-		return ret;
+		return v1;
 	
 	if(!isSorted){
 		sort(v1.begin(), v1.end());
-- 
2.43.0


From 70aabaca7f1052dac72890c518be5beefc8c94d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:28 +0000
Subject: [PATCH 40/50] fix: setIntersect and setUnion of equal unsorted
 vectors returned them unsorted

---
 Utils/utils.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Utils/utils.cpp b/Utils/utils.cpp
index 0d6b5b4..81275e8 100644
--- a/Utils/utils.cpp
+++ b/Utils/utils.cpp
@@ -181,14 +181,14 @@ double utils::vectors_distance(const std::vector<double>& a, const std::vector<d
 std::vector<unsigned> utils::setIntersect(std::vector<unsigned> v1, std::vector<unsigned> v2, bool isSorted){
 	std::vector<unsigned> ret;
 	
-	if(v1 == v2)
-		return v1;
-	
 	if(!isSorted){
 		sort(v1.begin(), v1.end());
 		sort(v2.begin(), v2.end());
 	}
 	
+	if(v1 == v2)
+		return v1;
+	
 	set_intersection(v1.begin(), v1.end(), v2.begin(), v2.end(), back_inserter(ret));
 
 	/*for(auto iter = v1.begin(); iter!= v1.end(); iter++){
@@ -378,14 +378,14 @@ std::vector<unsigned> utils::setUnion(std::vector<unsigned> v1, std::vector<unsi
 	std::vector<unsigned> ret;
 	std::vector<unsigned> retTemp;
 	
-	if(v1 == v2)
-		return v1;
-	
 	if(!isSorted){
 		sort(v1.begin(), v1.end());
 		sort(v2.begin(), v2.end());
 	}
 	
+	if(v1 == v2)
+		return v1;
+	
 	set_union(v1.begin(), v1.end(), v2.begin(), v2.end(), back_inserter(retTemp));
 		
 	/*for(auto iter = v1.begin(); iter!= v1.end(); iter++){
-- 
2.43.0


From 679245a2a967711cbf31c0d40ff1df693361a380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:12 +0000
Subject: [PATCH 41/50] fix: denStream read past the end of inputs with fewer
 than 1000 points

---
 Preprocessing/denStream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Preprocessing/denStream.cpp b/Preprocessing/denStream.cpp
index 05a3bd1..aee7dc2 100644
--- a/Preprocessing/denStream.cpp
+++ b/Preprocessing/denStream.cpp
@@ -92,6 +92,7 @@ denStream::denStream(){
 pipePacket denStream::runPreprocessor(pipePacket inData){
   /////////constants//////////
   initPoints = 1000; // points to generate p clusters (large data sets, use 1000) 
+  if(inData.originalData.size() < initPoints) initPoints = inData.originalData.size(); //No stream left after a shorter input
   minPoints = 20; //For DBSCAN 
   mu = 10;   //weight of data points in cluster threshold
   beta = 0.2; // outlier threshold
-- 
2.43.0


From d0b9d37b7c78c931c7f1560b4b4b1fde910f16f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:12 +0000
Subject: [PATCH 42/50] fix: denStream made up a micro-cluster at the origin
 when the initial points are all noise

---
 Preprocessing/denStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Preprocessing/denStream.cpp b/Preprocessing/denStream.cpp
index aee7dc2..520bbe0 100644
--- a/Preprocessing/denStream.cpp
+++ b/Preprocessing/denStream.cpp
@@ -111,7 +111,7 @@ pipePacket denStream::runPreprocessor(pipePacket inData){
   timestamp = initPoints/streamSpeed;
   numPerTime = initPoints % streamSpeed;
 
-  if(pClusters == -1) pClusters = 1;
+  if(pClusters == -1) pClusters = 0; //Only noise
   pMicroClusters = std::vector<microCluster>(pClusters, microCluster(timestamp, inData.originalData[0].size(), lambda));
 
   //Take labels of each point and insert into appropriate microCluster
-- 
2.43.0


From 6f74e05dbe8a74ebad6195a242eb131a306d7869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:38 +0000
Subject: [PATCH 43/50] fix: microCluster radius of points that all but
 coincide was NaN when rounding made the variance negative

---
 Preprocessing/denStream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Preprocessing/denStream.cpp b/Preprocessing/denStream.cpp
index 520bbe0..51715b0 100644
--- a/Preprocessing/denStream.cpp
+++ b/Preprocessing/denStream.cpp
@@ -64,6 +64,7 @@ double microCluster::getRadius(){
     r2 += avgSquares[i] - center[i]*center[i]; //(CF2/w)-(CF1/w)^2
   }
 
+  if(r2 < 0) r2 = 0; //Rounding
   return sqrt(r2);
 }
 
@@ -77,6 +78,7 @@ double microCluster::mergeRadius(std::vector<double> point, int timestamp){ //Ra
     r2 += newAvgSquare - newCenter*newCenter; //Use updated center and average sum of squares
   }
 
+  if(r2 < 0) r2 = 0; //Rounding
   return sqrt(r2);
 }
 
-- 
2.43.0


From fb47cbb627e7f7c30f9beb35c38fb5b0e315db2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:36 +0000
Subject: [PATCH 44/50] fix: slidingWindow rejected new points when rounding
 made the mean distance of coincident points negative

---
 Pipes/slidingWindow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Pipes/slidingWindow.cpp b/Pipes/slidingWindow.cpp
index d1e984b..b4290bf 100644
--- a/Pipes/slidingWindow.cpp
+++ b/Pipes/slidingWindow.cpp
@@ -344,7 +344,7 @@ bool slidingWindow::nnBasedEvaluator(std::vector<double>& currentVector, std::ve
         if (avgNNDistSinglePartition <= f2 && nnDistCurrVec <= 1)
             return false;
 
-        if (avgNNDistSinglePartition == 0 || nnDistCurrVec / avgNNDistSinglePartition > f1)
+        if (avgNNDistSinglePartition <= 0 || nnDistCurrVec / avgNNDistSinglePartition > f1)
         {
             // In this case, the oldest point will be deleted from the window.
             defaultVals->labelToBeDeleted = defaultVals->partitionLabels[0];
-- 
2.43.0


From ed0f269e5370454146432b12f12735a6d608bb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:33 +0000
Subject: [PATCH 45/50] fix: indSimplexTree had no clear, so that a cleared
 storage kept its old points

---
 Complex/indSimplexTree.cpp | 19 +++++++++++++++++++
 Complex/indSimplexTree.hpp |  1 +
 2 files changed, 20 insertions(+)

diff --git a/Complex/indSimplexTree.cpp b/Complex/indSimplexTree.cpp
index ccec240..9c7f2e3 100644
--- a/Complex/indSimplexTree.cpp
+++ b/Complex/indSimplexTree.cpp
@@ -845,3 +845,22 @@ std::vector<std::vector<unsigned>> indSimplexTree::getDimEdges(int,double){
 	return ret;
 	
 }
+
+void indSimplexTree::clear(){
+	
+	//Release the nodes; every node is listed in its dimension
+	for(auto dim : dimensions){
+		for(auto node : dim)
+			delete node;
+	}
+	
+	dimensions.clear();
+	indexedGraph.clear();
+	dimCounts = {6, 15, 20};
+	head = nullptr;
+	indexCounter = 0;
+	nodeCount = 0;
+	isSorted = false;
+	
+	return;
+}
diff --git a/Complex/indSimplexTree.hpp b/Complex/indSimplexTree.hpp
index eb715df..42e3e51 100644
--- a/Complex/indSimplexTree.hpp
+++ b/Complex/indSimplexTree.hpp
@@ -53,6 +53,7 @@ class indSimplexTree : public simplexBase {
 	bool deletion(std::set<unsigned>);
 	void expandDimensions(int){return;};
 	void reduceComplex();
+	void clear();
 	
 	
 };
-- 
2.43.0


From 67bee6db178122f72807872305b2a2bd44d2b8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:24 +0000
Subject: [PATCH 46/50] fix: storage debug output was always written, whatever
 the debug argument

---
 Complex/simplexBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Complex/simplexBase.cpp b/Complex/simplexBase.cpp
index 1171ea6..02823e3 100644
--- a/Complex/simplexBase.cpp
+++ b/Complex/simplexBase.cpp
@@ -27,7 +27,7 @@ void simplexBase::setConfig(std::map<std::string, std::string> configMap){
 
 	auto pipe = configMap.find("debug");
 	if(pipe != configMap.end())
-		debug = std::atoi(configMap["debug"].c_str());
+		debug = configMap["debug"];
 	pipe = configMap.find("outputFile");
 	if(pipe != configMap.end())
 		outputFile = configMap["outputFile"].c_str();
-- 
2.43.0


From b96c000aeaf44591d31af08c8374e9b6a3bd4f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:24 +0000
Subject: [PATCH 47/50] fix: persistence stages logged to the default log
 instead of the configured one

---
 Pipes/boundaryPipe.hpp        | 1 -
 Pipes/fastPersistence.hpp     | 1 -
 Pipes/optPersistencePairs.hpp | 1 -
 Pipes/persistencePairs.hpp    | 1 -
 4 files changed, 4 deletions(-)

diff --git a/Pipes/boundaryPipe.hpp b/Pipes/boundaryPipe.hpp
index 0be8b46..2cb5ea8 100644
--- a/Pipes/boundaryPipe.hpp
+++ b/Pipes/boundaryPipe.hpp
@@ -9,7 +9,6 @@ class boundaryPipe : public basePipe {
   private:
 	std::vector<int> ranks;
 	std::vector<int> nRanks;
-	utils ut;
 	float maxEpsilon;
   public:
 	int dim;
diff --git a/Pipes/fastPersistence.hpp b/Pipes/fastPersistence.hpp
index 10cdea6..951d0dd 100644
--- a/Pipes/fastPersistence.hpp
+++ b/Pipes/fastPersistence.hpp
@@ -11,7 +11,6 @@
 class fastPersistence : public basePipe {
   private:
   
-	utils ut;
 	double maxEpsilon;
 	std::string twist;
   public:
diff --git a/Pipes/optPersistencePairs.hpp b/Pipes/optPersistencePairs.hpp
index 3eb7c33..17b4c54 100644
--- a/Pipes/optPersistencePairs.hpp
+++ b/Pipes/optPersistencePairs.hpp
@@ -11,7 +11,6 @@
 class optPersistencePairs : public basePipe {
   private:
   
-	utils ut;
 	double maxEpsilon;
 	std::string twist;
   public:
diff --git a/Pipes/persistencePairs.hpp b/Pipes/persistencePairs.hpp
index 0f5dffc..df9835a 100644
--- a/Pipes/persistencePairs.hpp
+++ b/Pipes/persistencePairs.hpp
@@ -10,7 +10,6 @@
 class persistencePairs : public basePipe {
   private:
   
-	utils ut;
 	double maxEpsilon;
 	std::string twist;
   public:
-- 
2.43.0


From b90f63b9c5461e2ed1967b789915532b6e900246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:35 +0000
Subject: [PATCH 48/50] fix: slidingWindow started a second run with the window
 of the first

---
 Pipes/slidingWindow.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Pipes/slidingWindow.cpp b/Pipes/slidingWindow.cpp
index b4290bf..a31eaf7 100644
--- a/Pipes/slidingWindow.cpp
+++ b/Pipes/slidingWindow.cpp
@@ -520,6 +520,9 @@ pipePacket slidingWindow::runPipe(pipePacket inData)
     readInput rp;
 	pPack = &inData;
 	
+	//Every run starts with an empty window
+	*defaultVals = EvalParams{ defaultVals->windowMaxSize, 0, 0 };
+	
 
     // For this pipe, we construct a sub-pipeline:
     //		1. Read data vector by vector, push into slidingWindow evaluation
-- 
2.43.0


From 0ea224033dd0fe0db527d78dee23bed5be160069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:36 +0000
Subject: [PATCH 49/50] fix: denStream kept the outlier micro-clusters of an
 earlier run

---
 Preprocessing/denStream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Preprocessing/denStream.cpp b/Preprocessing/denStream.cpp
index 51715b0..97a8dfc 100644
--- a/Preprocessing/denStream.cpp
+++ b/Preprocessing/denStream.cpp
@@ -114,6 +114,7 @@ pipePacket denStream::runPreprocessor(pipePacket inData){
   numPerTime = initPoints % streamSpeed;
 
   if(pClusters == -1) pClusters = 0; //Only noise
+  oMicroClusters.clear();
   pMicroClusters = std::vector<microCluster>(pClusters, microCluster(timestamp, inData.originalData[0].size(), lambda));
 
   //Take labels of each point and insert into appropriate microCluster
-- 
2.43.0


From 42c39f916d30282f0da0467c75e5c71924054a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:34 +0000
Subject: [PATCH 50/50] fix: persistencePairs kept the pairs of an earlier run

---
 Pipes/persistencePairs.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Pipes/persistencePairs.cpp b/Pipes/persistencePairs.cpp
index 42275b8..b87eb54 100644
--- a/Pipes/persistencePairs.cpp
+++ b/Pipes/persistencePairs.cpp
@@ -197,6 +197,9 @@ pipePacket persistencePairs::runPipe(pipePacket inData){
 	//			Generate persistence interval for these, (weight of T[j], inf)
 	//		Success!
 	
+	//The pairs of an earlier run do not belong to this complex
+	tArray.clear();
+	
 	//Generate our boundary matrix and retrieve pivots
 	std::set<unsigned> kPivots = createBoundaryMatrix(edges);
 	
-- 
2.43.0

