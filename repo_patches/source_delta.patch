From 4106a96e37486960f2ee7b6e4c559eb5c1a040ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 001/107] fix: Util::memoryLeft overflowed its stack buffers on
 /proc/meminfo lines without a unit

---
 Util/Util.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Util/Util.cpp b/Util/Util.cpp
index 5d0c174..d0dcf63 100644
--- a/Util/Util.cpp
+++ b/Util/Util.cpp
@@ -529,10 +529,13 @@ Util::memoryLeft()
     if(fp == NULL)
         return -1;
 
-    char str[20], tail[3];
+    // NOTICE:some lines have no unit, and some names are long: read line by line with bounded fields
+    char line[256], str[64];
     unsigned num, avail = 0, free = 0, buffer = 0, cache = 0;		//WARN:unsigned,memory cant be too large!
-    while (fscanf(fp, "%s%u%s", str, &num, tail) != EOF)
+    while (fgets(line, sizeof(line), fp) != NULL)
     {
+        if(sscanf(line, "%63s%u", str, &num) != 2)
+        	continue;
         if(strcmp(str, "MemAvailable:") == 0)
         	avail = num;
         if(strcmp(str, "MemFree:") == 0)
-- 
2.43.0


From f2eb3dfb7e7e4501579565001b419e0d69b19ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 002/107] fix: OneEdgeConstraintFilter erased records of one
 list through the other list

---
 Database/Executor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Database/Executor.cpp b/Database/Executor.cpp
index 1e9424f..b36fe21 100644
--- a/Database/Executor.cpp
+++ b/Database/Executor.cpp
@@ -771,7 +771,7 @@ tuple<bool,TableContentShardPtr> gstore::Executor::OneEdgeConstraintFilter(EdgeI
         result_table->push_back(*record_iterator);
     }
     if(!remain_old)
-      record_iterator = result_table->erase(record_iterator);
+      record_iterator = table_content_ptr->erase(record_iterator);
     else
       record_iterator++;
     delete [] edge_candidate_list;
-- 
2.43.0


From 9ff54ef9189cb70472edfb7ab6135a926cedf3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 003/107] fix: a selected predicate variable with an unselected
 neighbour lost solutions of non-distinct queries

---
 Database/PlanGenerator.cpp | 6 ++++--
 Database/PlanTree.cpp      | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/Database/PlanGenerator.cpp b/Database/PlanGenerator.cpp
index 95888fe..8d2ca55 100644
--- a/Database/PlanGenerator.cpp
+++ b/Database/PlanGenerator.cpp
@@ -59,7 +59,8 @@ JoinMethod PlanGenerator::GetJoinStrategy(bool s_is_var, bool p_is_var, bool o_i
 			if(!bgpquery->get_vardescrip_by_id(bgpquery->pre_var_id[0])->selected_)
 				return JoinMethod::s2o;
 			else{
-				if(!bgpquery->get_vardescrip_by_id(bgpquery->so_var_id[0])->selected_)
+				// s2p lists each predicate once: only a distinct query may use it in place of s2po
+				if(bgpquery->distinct_query && !bgpquery->get_vardescrip_by_id(bgpquery->so_var_id[0])->selected_)
 					return JoinMethod::s2p;
 				else return JoinMethod::s2po;
 			}
@@ -68,7 +69,8 @@ JoinMethod PlanGenerator::GetJoinStrategy(bool s_is_var, bool p_is_var, bool o_i
 			if(!bgpquery->get_vardescrip_by_id(bgpquery->pre_var_id[0])->selected_)
 				return JoinMethod::o2s;
 			else{
-				if(!bgpquery->get_vardescrip_by_id(bgpquery->so_var_id[0])->selected_)
+				// o2p lists each predicate once: only a distinct query may use it in place of o2ps
+				if(bgpquery->distinct_query && !bgpquery->get_vardescrip_by_id(bgpquery->so_var_id[0])->selected_)
 					return JoinMethod::o2p;
 				else return JoinMethod::o2ps;
 			}
diff --git a/Database/PlanTree.cpp b/Database/PlanTree.cpp
index 6e7c4c0..b2fd53a 100644
--- a/Database/PlanTree.cpp
+++ b/Database/PlanTree.cpp
@@ -542,7 +542,8 @@ void PlanTree::AddSatelliteNode(BGPQuery *bgpquery, unsigned int satellite_node_
 			new_join_node->left_node = root_node;
 			root_node = new_join_node;
 		} else{
-            if (!save) {
+            // s2p/o2p list each predicate once, so they keep the number of solutions of a distinct query only
+            if (!save && bgpquery->distinct_query) {
                 auto join_a_node_edge_info = make_shared<vector<EdgeInfo>>();
                 auto join_a_node_edge_const_info = make_shared<vector<EdgeConstantInfo>>();
 
-- 
2.43.0


From b1c8c314c3eb911d4d03361812ec04e14f9bc559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 004/107] fix: further edges of a predicate variable joined in
 the same step were not checked

---
 Database/PlanTree.cpp | 27 +++++++++++++++++++++++++++
 Database/PlanTree.h   |  1 +
 2 files changed, 28 insertions(+)

diff --git a/Database/PlanTree.cpp b/Database/PlanTree.cpp
index b2fd53a..c3245a2 100644
--- a/Database/PlanTree.cpp
+++ b/Database/PlanTree.cpp
@@ -18,6 +18,31 @@ JoinMethod PlanTree::get_join_strategy(BGPQuery *bgp_query, shared_ptr<VarDescri
 	}
 }
 
+// The first edge joined node_id together with its predicate variable, the other edges between
+// the same predicate variable and node_id are still to be checked.
+void PlanTree::check_same_prevar_edges(unsigned node_id, BGPQuery *bgpquery, const vector<unsigned> &edge_indexes) {
+	auto var_descrip = bgpquery->get_vardescrip_by_id(node_id);
+	auto edge_info = make_shared<vector<EdgeInfo>>();
+	auto edge_constant_info = make_shared<vector<EdgeConstantInfo>>();
+
+	for (unsigned i = 1; i < edge_indexes.size(); ++i) {
+		if (var_descrip->so_edge_pre_id_[edge_indexes[i]] != var_descrip->so_edge_pre_id_[edge_indexes[0]])
+			continue;
+		unsigned edge_index = var_descrip->so_edge_index_[edge_indexes[i]];
+		edge_info->emplace_back(bgpquery->s_id_[edge_index], bgpquery->p_id_[edge_index], bgpquery->o_id_[edge_index],
+								var_descrip->so_edge_type_[edge_indexes[i]] == Util::EDGE_IN ? JoinMethod::sp2o : JoinMethod::po2s);
+		edge_constant_info->emplace_back(bgpquery->s_is_constant_[edge_index], bgpquery->p_is_constant_[edge_index], bgpquery->o_is_constant_[edge_index]);
+	}
+	if (edge_info->empty())
+		return;
+
+	Tree_node *check_node = new Tree_node(make_shared<StepOperation>(StepOperation::StepOpType::Check, StepOperation::OpRangeType::OneNode,
+																	 make_shared<AffectOneNode>(node_id, edge_info, edge_constant_info),
+																	 nullptr, nullptr, bgpquery->distinct_query));
+	check_node->left_node = root_node;
+	root_node = check_node;
+}
+
 // Let the first_node be ?s
 // ?s p o. Not consider, already considered in constant filter.
 // ?s p ?o. Not consider. 1. ?o join node, join in next steps; 2. ?o satellite node, join in final steps.
@@ -74,6 +99,7 @@ PlanTree::PlanTree(unsigned first_node, BGPQuery *bgpquery) {
 			root_node = new_tree_node;
 			already_joined_pre_var.emplace_back(bgpquery->p_id_[edge_index]);
 			beg = 1;
+			check_same_prevar_edges(first_node, bgpquery, need_join_two_nodes_edge_index);
 
 		}
 
@@ -199,6 +225,7 @@ PlanTree::PlanTree(PlanTree *last_plantree, BGPQuery *bgpquery, unsigned next_no
 			root_node = new_tree_node;
 			already_joined_pre_var.emplace_back(bgpquery->p_id_[edge_index]);
 			beg = 1;
+			check_same_prevar_edges(next_node, bgpquery, need_join_two_nodes_index);
 		}
 
 		for(unsigned i = beg; i < need_join_two_nodes_index.size(); ++i){
diff --git a/Database/PlanTree.h b/Database/PlanTree.h
index b94477c..826cdc2 100644
--- a/Database/PlanTree.h
+++ b/Database/PlanTree.h
@@ -68,6 +68,7 @@ class PlanTree {
 	}
 
     JoinMethod get_join_strategy(BGPQuery *bgp_query, shared_ptr<VarDescriptor> var_descrip, unsigned edge_index, bool join_two_node = true );
+    void check_same_prevar_edges(unsigned node_id, BGPQuery *bgpquery, const vector<unsigned> &edge_indexes);
 
 	// Var Scan Operation
     PlanTree(unsigned first_node, BGPQuery *bgpquery);
-- 
2.43.0


From bcd267638c8df925a9eb4bb3e30bd1bf808c61bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:28 +0000
Subject: [PATCH 005/107] fix: add_prevar_neicon read the direction of the
 wrong edge

---
 Database/PlanTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Database/PlanTree.cpp b/Database/PlanTree.cpp
index c3245a2..347600e 100644
--- a/Database/PlanTree.cpp
+++ b/Database/PlanTree.cpp
@@ -330,7 +330,7 @@ void PlanTree::add_prevar_neicon(unsigned node_id, BGPQuery *bgpquery, bool is_f
 				auto edge_info = make_shared<vector<EdgeInfo>>();
 				auto edge_constant_info = make_shared<vector<EdgeConstantInfo>>();
 				edge_info->emplace_back(bgpquery->s_id_[edge_index], bgpquery->p_id_[edge_index], bgpquery->o_id_[edge_index],
-										var_descrip->so_edge_type_[need_check_pre_var_edge_index[i]] == Util::EDGE_IN ? JoinMethod::sp2o : JoinMethod::po2s);
+										var_descrip->so_edge_type_[need_join_pre_var_edge_index[i]] == Util::EDGE_IN ? JoinMethod::sp2o : JoinMethod::po2s);
 				edge_constant_info->emplace_back(bgpquery->s_is_constant_[edge_index], bgpquery->p_is_constant_[edge_index], bgpquery->o_is_constant_[edge_index]);
 				auto edge_check = make_shared<AffectOneNode>(node_id, edge_info, edge_constant_info);
 				Tree_node* edge_check_node = new Tree_node(make_shared<StepOperation>(StepOperation::StepOpType::Check, StepOperation::OpRangeType::OneNode,
-- 
2.43.0


From 8e48e6a0bbb9841730e8b3a92f150df16a3c4f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:04 +0000
Subject: [PATCH 006/107] fix: intersecting candidate lists dropped the
 multiplicity of unselected predicate variables

---
 Database/Executor.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/Database/Executor.cpp b/Database/Executor.cpp
index b36fe21..57d44b0 100644
--- a/Database/Executor.cpp
+++ b/Database/Executor.cpp
@@ -982,6 +982,8 @@ std::shared_ptr<IDList> gstore::Executor::ExtendRecordOneNode(shared_ptr<AffectO
                                                       list<vector<TYPE_ENTITY_LITERAL_ID>>::iterator record_iterator) const{
   auto record_candidate_list= make_shared<IDList>();
   auto record_candidate_prepared = false;
+  // candidates an edge offers several times (over different unselected predicates)
+  unordered_map<TYPE_ENTITY_LITERAL_ID, unsigned> candidate_times;
   auto edges_info = one_step_join_node_->edges_;
   auto edge_constant_info_vec = one_step_join_node_->edges_constant_info_;
   /* for each edge */
@@ -1163,6 +1165,21 @@ std::shared_ptr<IDList> gstore::Executor::ExtendRecordOneNode(shared_ptr<AffectO
         throw "ExtendRecordOneNode only support add 1 node each time";
     }
 
+    // intersect the candidates as sets, the times they are offered by the edges multiply
+    unsigned distinct_len = 0;
+    for (unsigned i = 0; i < edge_list_len;) {
+      unsigned next = i + 1;
+      while (next < edge_list_len && edge_candidate_list[next] == edge_candidate_list[i])
+        next++;
+      if (next - i > 1) {
+        auto times_it = candidate_times.emplace(edge_candidate_list[i], 1).first;
+        times_it->second *= next - i;
+      }
+      edge_candidate_list[distinct_len++] = edge_candidate_list[i];
+      i = next;
+    }
+    edge_list_len = distinct_len;
+
     UpdateIDList(record_candidate_list,
                  edge_candidate_list,
                  edge_list_len,
@@ -1178,6 +1195,17 @@ std::shared_ptr<IDList> gstore::Executor::ExtendRecordOneNode(shared_ptr<AffectO
     record_candidate_list->intersectList(caches_ptr->getList()->data(),caches_ptr->size());
   }
 
+  if (!candidate_times.empty()) {
+    auto repeated_list = make_shared<IDList>();
+    for (unsigned i = 0; i < record_candidate_list->size(); i++) {
+      auto candidate_id = record_candidate_list->getID(i);
+      auto times_it = candidate_times.find(candidate_id);
+      unsigned times = times_it == candidate_times.end() ? 1 : times_it->second;
+      for (unsigned k = 0; k < times; k++)
+        repeated_list->addID(candidate_id);
+    }
+    return repeated_list;
+  }
   return record_candidate_list;
 }
 
-- 
2.43.0


From 9154ca53b395e78c1f42eee13a93a0b8665ae4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 007/107] fix: variables linking separate blocks of a group
 were projected away before the join

---
 Query/GeneralEvaluation.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 8405126..ed3c0d5 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -803,6 +803,13 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 										triple_pattern.mergePatternBlockID(l, k);
 						}
 
+					// Vars linking different blocks (predicate vars, or vars of a path pattern) are needed to join them //
+					for (int l = 0; l < (int)triple_pattern.sub_group_pattern.size(); l++)
+						for (int k = 0; k < l; k++)
+							if (triple_pattern.sub_group_pattern[l].pattern.kleene || triple_pattern.sub_group_pattern[k].pattern.kleene \
+								|| triple_pattern.getRootPatternBlockID(l) != triple_pattern.getRootPatternBlockID(k))
+								useful += triple_pattern.sub_group_pattern[l].pattern.varset * triple_pattern.sub_group_pattern[k].pattern.varset;
+
 					// Retrieve current BGP's result if query cache hit, or else save into sparql_query //
 					for (int l = 0; l < (int)triple_pattern.sub_group_pattern.size(); l++)
 						if (triple_pattern.sub_group_pattern[l].type == GroupPattern::SubGroupPattern::Pattern_type \
-- 
2.43.0


From f6d7e11b280ec660d864eccfee8dadc9028a0e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:30 +0000
Subject: [PATCH 008/107] fix: a join without common variables moved strings
 out of rows that further pairs need

---
 Query/TempResult.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 28be3c5..d82c442 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -350,12 +350,10 @@ void TempResult::doJoin(TempResult &x, TempResult &r)
 
 						for (int k = 0; k < this_str_cols; k++)
 							// copy(this->result[i].str[k].begin(), this->result[i].str[k].end(), v[this2r_str_pos[k]].begin());
-							v[this2r_str_pos[k]] = std::move(this->result[i].str[k]);
-							// v[this2r_str_pos[k]] = this->result[i].str[k];	// move
+							v[this2r_str_pos[k]] = this->result[i].str[k];
 						for (int k = 0; k < x_str_cols; k++)
 							// copy(x.result[j].str[k].begin(), x.result[j].str[k].end(), v[x2r_str_pos[k]].begin());
-							v[x2r_str_pos[k]] = std::move(x.result[j].str[k]);
-							// v[x2r_str_pos[k]] = x.result[j].str[k];	// move
+							v[x2r_str_pos[k]] = x.result[j].str[k];
 
 						curr++;
 					}
@@ -370,12 +368,10 @@ void TempResult::doJoin(TempResult &x, TempResult &r)
 
 						for (int k = 0; k < this_str_cols; k++)
 							// copy(this->result[i].str[k].begin(), this->result[i].str[k].end(), v[this2r_str_pos[k]].begin());
-							v[this2r_str_pos[k]] = std::move(this->result[i].str[k]);
-							// v[this2r_str_pos[k]] = this->result[i].str[k];	// move
+							v[this2r_str_pos[k]] = this->result[i].str[k];
 						for (int k = 0; k < x_str_cols; k++)
 							// copy(x.result[j].str[k].begin(), x.result[j].str[k].end(), v[x2r_str_pos[k]].begin());
-							v[x2r_str_pos[k]] = std::move(x.result[j].str[k]);
-							// v[x2r_str_pos[k]] = x.result[j].str[k];	// move
+							v[x2r_str_pos[k]] = x.result[j].str[k];
 
 						curr++;
 					}
-- 
2.43.0


From 4eeeb356c60de27b82549625523686250a9d0b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:01 +0000
Subject: [PATCH 009/107] fix: MINUS of an empty group without common variables
 returned every row twice

---
 Query/TempResult.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index d82c442..174818d 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -615,8 +615,11 @@ void TempResult::doOptional(vector<bool> &binding, TempResult &x, TempResult &rn
 void TempResult::doMinus(TempResult &x, TempResult &r)
 {
 	if (x.result.empty())
-		r = *this;
-	
+	{
+		this->doUnion(r);
+		return;
+	}
+
 	int this_id_cols = this->id_varset.getVarsetSize();
 
 	int r_id_cols = r.id_varset.getVarsetSize();
-- 
2.43.0


From 01c75d78fde0cefdbec531b6102c5b558225046d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:01 +0000
Subject: [PATCH 010/107] fix: an OPTIONAL without common variables and without
 solutions removed the rows

---
 Query/TempResult.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 174818d..20ded5c 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -535,7 +535,7 @@ void TempResult::doOptional(vector<bool> &binding, TempResult &x, TempResult &rn
 		this->doJoin(x, ra);
 
 		binding.resize((int)this->result.size());
-		for (int i = 0; i < (int)this->result.size(); i++)
+		for (int i = 0; i < (int)this->result.size() && !x.result.empty(); i++)
 			binding[i] = true;	// val in resize is only for new insertions
 	}
 	else if (!x.result.empty())
-- 
2.43.0


From 2db64484bfed24221263b50ead3541c05c31c4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:27 +0000
Subject: [PATCH 011/107] fix: solutions binding none of the selected variables
 were dropped by the projection

---
 Query/TempResult.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 20ded5c..281481f 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -1556,7 +1556,6 @@ void TempResultSet::doProjection1(Varset &proj, TempResultSet &r, StringIndex *s
 	int r_str_cols = r_str_varset.getVarsetSize();
 
 	for (int i = 0; i < (int)this->results.size(); i++)
-		if (this->results[i].id_varset.hasCommonVar(r_id_varset) || this->results[i].str_varset.hasCommonVar(r_str_varset))
 		{
 			vector<int> r2this_id_pos = r_id_varset.mapTo(this->results[i].id_varset);
 			vector<int> r2this_str_pos = r_str_varset.mapTo(this->results[i].str_varset);
-- 
2.43.0


From d58bac6b53d27be382395f8dbfd04e11ec4213bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:33 +0000
Subject: [PATCH 012/107] fix: a FILTER in a group without other elements
 dereferenced an empty result list

---
 Query/TempResult.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 281481f..70a4599 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -1498,6 +1498,8 @@ void TempResultSet::doMinus(TempResultSet &x, TempResultSet &r, StringIndex *str
 }
 
 void TempResultSet::doFilter(const CompTreeNode &filter, KVstore *kvstore, Varset &entity_literal_varset, unsigned limit_num) {
+    if (this->results.empty())
+        return;
     unsigned before_size = results[0].result.size();
     long tv_begin = Util::get_cur_time();
 
-- 
2.43.0


From 13dd723ae2493b26a6aea5bb08b32dc42ed27f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 013/107] fix: triple patterns with the same subject and object
 variable crashed or lost the equality

---
 Query/GeneralEvaluation.cpp | 89 ++++++++++++++++++++++++++++++++-----
 1 file changed, 79 insertions(+), 10 deletions(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index ed3c0d5..5fd1fa5 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -10,6 +10,75 @@
 
 using namespace std;
 
+// The BGP engine joins triples over different variables. The object variable of a triple
+// `?x p ?x` is therefore renamed, and keepSelfLoops() selects the solutions in which both are equal.
+static const char *SELF_LOOP_SUFFIX = "#";
+
+static bool isSelfLoop(const GroupPattern::Pattern &pattern)
+{
+	return pattern.subject.value[0] == '?' && pattern.subject.value == pattern.object.value;
+}
+
+static Triple getBgpTriple(const GroupPattern::Pattern &pattern)
+{
+	return Triple(pattern.subject.value, pattern.predicate.value,
+		pattern.object.value + (isSelfLoop(pattern) ? SELF_LOOP_SUFFIX : ""));
+}
+
+static bool addSelfLoopVars(const vector<GroupPattern::Pattern> &basic_query, Varset &encode_vars)
+{
+	bool found = false;
+	for (const GroupPattern::Pattern &pattern : basic_query)
+		if (isSelfLoop(pattern))
+		{
+			found = true;
+			encode_vars.addVar(pattern.subject.value);
+		}
+	// The renamed variables come last, so that keepSelfLoops() can cut them off
+	for (const GroupPattern::Pattern &pattern : basic_query)
+		if (isSelfLoop(pattern))
+			encode_vars.addVar(pattern.object.value + SELF_LOOP_SUFFIX);
+	return found;
+}
+
+static void keepSelfLoops(TempResult &tr, KVstore *kvstore)
+{
+	Varset kept;
+	vector<pair<int, string> > renamed;
+	for (int i = 0; i < tr.id_varset.getVarsetSize(); i++)
+	{
+		const string &var = tr.id_varset.vars[i];
+		if (var.back() == SELF_LOOP_SUFFIX[0])
+			renamed.emplace_back(i, var.substr(0, var.size() - 1));
+		else
+			kept.addVar(var);
+	}
+	if (renamed.empty())
+		return;
+
+	vector<TempResult::ResultPair> rows;
+	for (TempResult::ResultPair &row : tr.result)
+	{
+		bool equal = true;
+		for (const pair<int, string> &r : renamed)
+		{
+			int pos = Varset(r.second).mapTo(tr.id_varset)[0];
+			if (pos != -1)
+				equal = equal && row.id[pos] == row.id[r.first];
+			else
+				equal = equal && row.str[Varset(r.second).mapTo(tr.str_varset)[0]] == kvstore->getStringByID(row.id[r.first]);
+		}
+		if (equal)
+		{
+			row.sz = kept.getVarsetSize();
+			rows.push_back(row);
+		}
+	}
+	tr.release();
+	tr.result.swap(rows);
+	tr.id_varset = kept;
+}
+
 #define TEST_BGPQUERY
 
 GeneralEvaluation::EvaluationStackStruct::EvaluationStackStruct()
@@ -565,12 +634,12 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 										bgp_query_vec.push_back(make_shared<BGPQuery>());
 										for (int k = 0; k < (int)basic_query.size(); k++)
 										{
-											bgp_query_vec[bgp_query_vec.size() - 1]->AddTriple(Triple(basic_query[k].subject.value,
-													basic_query[k].predicate.value,
-													basic_query[k].object.value));
+											bgp_query_vec[bgp_query_vec.size() - 1]->AddTriple(getBgpTriple(basic_query[k]));
 										}
 										#endif
 
+										if (addSelfLoopVars(basic_query, occur))
+											query_info.limit_ = false;
 										encode_varset.push_back(occur.vars);
 										basic_query_handle.push_back(basic_query);
 									}
@@ -646,6 +715,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 						vector<unsigned*> &basicquery_result = sparql_query.getBasicQuery(j).getResultList();
 						#else
 						copyBgpResult2TempResult(bgp_query_vec[j], varnum, temp->results[0]);
+						keepSelfLoops(temp->results[0], kvstore);
 						#endif
 
 						if (this->query_cache != NULL)
@@ -788,6 +858,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 					#endif
 					vector<vector<string> > encode_varset;
 					vector<vector<GroupPattern::Pattern> > basic_query_handle;
+					bool has_self_loop = false;
 
 					// Get connected block (BGP): merge the block IDs of triples with common vars //
 					triple_pattern.initPatternBlockid();
@@ -863,12 +934,11 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 								bgp_query_vec.push_back(make_shared<BGPQuery>());
 								for (int k = 0; k < (int)basic_query.size(); k++)
 								{
-									bgp_query_vec[bgp_query_vec.size() - 1]->AddTriple(Triple(basic_query[k].subject.value,
-											basic_query[k].predicate.value,
-											basic_query[k].object.value));
+									bgp_query_vec[bgp_query_vec.size() - 1]->AddTriple(getBgpTriple(basic_query[k]));
 								}
 								#endif
 
+								has_self_loop |= addSelfLoopVars(basic_query, local_useful);
 								encode_varset.push_back(local_useful.vars);
 								basic_query_handle.push_back(basic_query);
 							}
@@ -910,7 +980,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 
 					query_info.limit_ = false;
 					query_info.limit_num_ = -1;
-					if(this->query_tree.getLimit()!=-1 && this->query_tree.getSingleBGP()) {
+					if(this->query_tree.getLimit()!=-1 && this->query_tree.getSingleBGP() && !has_self_loop) {
 						query_info.limit_ = true;
 						query_info.limit_num_ = this->query_tree.getLimit();
 					}
@@ -955,6 +1025,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 						vector<unsigned*> &basicquery_result = sparql_query.getBasicQuery(l).getResultList();
 						#else
 						copyBgpResult2TempResult(bgp_query_vec[l], varnum, temp->results[0]);
+						keepSelfLoops(temp->results[0], kvstore);
 						#endif
 						
 						// cout << "Use count = " << bgp_query_vec[l].use_count() << endl;
@@ -4220,9 +4291,7 @@ void GeneralEvaluation::addAllTriples(const GroupPattern &group_pattern)
 		// Here not yet transformed into BGP_type
 		if (group_pattern.sub_group_pattern[i].type == GroupPattern::SubGroupPattern::Pattern_type)
 		{
-			bgp_query_total->AddTriple(Triple(group_pattern.sub_group_pattern[i].pattern.subject.value, \
-					group_pattern.sub_group_pattern[i].pattern.predicate.value, \
-					group_pattern.sub_group_pattern[i].pattern.object.value));
+			bgp_query_total->AddTriple(getBgpTriple(group_pattern.sub_group_pattern[i].pattern));
 		}
 	}
 }
-- 
2.43.0


From 18fc25915db9f2e7ef15dfe967878f34cce94397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:44 +0000
Subject: [PATCH 014/107] fix: a triple of constants among other patterns ended
 the process or was ignored

---
 Query/GeneralEvaluation.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 5fd1fa5..0993211 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -584,6 +584,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 					#endif
 					vector<vector<string> > encode_varset;
 					vector<vector<GroupPattern::Pattern> > basic_query_handle;
+					bool constants_hold = true;
 
 					// auto limit_num = query_tree.getLimit();
 					auto order_var_vec = query_tree.getOrderVarVector();
@@ -592,7 +593,9 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 						if (group_pattern.sub_group_pattern[j].type == GroupPattern::SubGroupPattern::Pattern_type \
 							&& !group_pattern.sub_group_pattern[j].pattern.kleene)
 						{
-							if (!group_pattern.sub_group_pattern[j].pattern.varset.empty())
+							if (group_pattern.sub_group_pattern[j].pattern.varset.empty())
+								constants_hold = constants_hold && BGPQuery::CheckConstBGPExist({getBgpTriple(group_pattern.sub_group_pattern[j].pattern)}, kvstore);
+							else
 							{
 								if (group_pattern.getRootPatternBlockID(j) == j)		//root node, coming from mergePatternBlockID
 								{
@@ -691,7 +694,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 						for (size_t k = 0; k < encode_varset[j].size(); k++)
 							p2id[k] = bgp_query_vec[j]->get_var_id_by_name(Varset(encode_varset[j]).vars[k]);
 						// bgp_query_vec[j]->print(kvstore);
-						if (!encode_constant_exist[j])
+						if (!constants_hold || !encode_constant_exist[j])
 							continue;	// If any constant in this BGP does not exist, do not need to DoQuery
 						ranked = get<1>(this->optimizer_->DoQuery(bgp_query_vec[j],query_info));
 					}
@@ -751,6 +754,9 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 						}
 					}
 					
+					if (!constants_hold && sub_result->results.empty())
+						sub_result->results.push_back(TempResult());	// no solution
+
 					// printf("Pattern_type result: \n");
 					// result->print();
 
@@ -858,7 +864,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 					#endif
 					vector<vector<string> > encode_varset;
 					vector<vector<GroupPattern::Pattern> > basic_query_handle;
-					bool has_self_loop = false;
+					bool has_self_loop = false, constants_hold = true;
 
 					// Get connected block (BGP): merge the block IDs of triples with common vars //
 					triple_pattern.initPatternBlockid();
@@ -890,6 +896,12 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 							/// Process only the root triples of each BGP ///
 							//// Construct occur: all vars that occur in this BGP ////
 							//// Construct basic_query: vector of triples in this block ////
+							if (triple_pattern.sub_group_pattern[l].pattern.varset.empty())
+							{
+								//// A triple of constants only is a condition on the whole group ////
+								constants_hold = constants_hold && BGPQuery::CheckConstBGPExist({getBgpTriple(triple_pattern.sub_group_pattern[l].pattern)}, kvstore);
+								continue;
+							}
 							Varset occur, local_useful = useful;
 							vector<GroupPattern::Pattern> basic_query;
 							for (int k = 0; k < (int)triple_pattern.sub_group_pattern.size(); k++)
@@ -1001,7 +1013,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 						for (size_t k = 0; k < encode_varset[l].size(); k++)
 							p2id[k] = bgp_query_vec[l]->get_var_id_by_name(Varset(encode_varset[l]).vars[k]);
 						// bgp_query_vec[l]->print(kvstore);
-						if (!encode_constant_exist[l])
+						if (!constants_hold || !encode_constant_exist[l])
 							continue;
 						ranked = get<1>(this->optimizer_->DoQuery(bgp_query_vec[l],query_info));
 					}
@@ -1064,6 +1076,9 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 						}
 					}
 
+					if (!constants_hold && sub_result->results.empty())
+						sub_result->results.push_back(TempResult());	// no solution
+
 					for (int l = 0; l < (int)triple_pattern.sub_group_pattern.size(); l++)
 					{
 						if (triple_pattern.sub_group_pattern[l].pattern.kleene)
-- 
2.43.0


From 04de34fa3dfdbcf29182ddf1f362f961a8a068f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:36 +0000
Subject: [PATCH 015/107] fix: candidate lists ignored solutions that leave the
 variable unbound

---
 Query/GeneralEvaluation.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 0993211..4091a38 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -3969,8 +3969,9 @@ void GeneralEvaluation::fillCandList(vector<shared_ptr<BGPQuery>>& bgp_query_vec
 			/// For each var in the current BGP ///
 			/// construct result_set: the candidate values of this var from the parent result in rewriting_evaluation_stack ///
 			set<unsigned> result_set;
+			bool always_bound = true;	// solutions leaving the var unbound are compatible with any value
 
-			for (int t = 0; t < (int)last_result->results.size(); t++)
+			for (int t = 0; t < (int)last_result->results.size() && always_bound; t++)
 			{
 				//// For each var in each BGP, check each result in the parent result in rewriting_evaluation_stack ////
 				//// If this var exists in the parent result, retrieve its value in the parent result into result_set ////
@@ -3987,11 +3988,13 @@ void GeneralEvaluation::fillCandList(vector<shared_ptr<BGPQuery>>& bgp_query_vec
 						for (int l = 0; l < (int)result.size(); l++)
 							result_set.insert(kvstore->getIDByString(result[l].str[pos]));
 					}
+					else if (!result.empty())
+						always_bound = false;
 				}
 			}
 
 			/// If result_set is non-empty, set it as the current var's candidate list ///
-			if (!result_set.empty())
+			if (always_bound && !result_set.empty())
 			{
 				// vector<unsigned> result_vector;
 				IDList result_vector;
-- 
2.43.0


From 94b94162012e5a73a04da4a3c8b5379eb46f9ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 016/107] fix: a triple of constants after other elements of a
 group emptied the answer

---
 Query/GeneralEvaluation.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 4091a38..738a588 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -760,7 +760,12 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 					// printf("Pattern_type result: \n");
 					// result->print();
 
-					if (result->results.empty())
+					if (constants_hold && bgp_query_vec.empty())
+					{
+						// Only triples of constants, all of which hold: nothing to join
+						delete sub_result;
+					}
+					else if (result->results.empty())
 					{
 						delete result;
 						result = sub_result;
-- 
2.43.0


From 34ed13d76f50a3a39cf48630e399c8d72f632e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 017/107] fix: a join without common variables overwrote rows
 already in the result

---
 Query/TempResult.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 70a4599..33b06e0 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -295,12 +295,14 @@ void TempResult::doJoin(TempResult &x, TempResult &r)
 	if (common.empty())
 	{
 		// printf("Res size = %d, ", (int)this->result.size() * (int)x.result.size());
-		r.result.resize(this->result.size() * x.result.size());
+		// r may already hold the rows of another pair of results
+		size_t first = r.result.size();
+		r.result.resize(first + this->result.size() * x.result.size());
 		// r.result.assign(this->result.size() * x.result.size(), TempResult::ResultPair(r_str_cols));
 		bool x_larger = x.result.size() > this->result.size();
 		if (r_id_cols > 0)
 		{
-			size_t curr = 0;
+			size_t curr = first;
 
 			if (x_larger)
 			{
@@ -339,7 +341,7 @@ void TempResult::doJoin(TempResult &x, TempResult &r)
 		}
 		if (r_str_cols > 0)
 		{
-			size_t curr = 0;
+			size_t curr = first;
 			if (x_larger)
 			{
 				for (int i = 0; i < (int)this->result.size(); i++)
-- 
2.43.0


From 204f62d08cb61f4b3aab3b77f9d60fb1e17e2b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:11 +0000
Subject: [PATCH 018/107] fix: an OPTIONAL inside a UNION branch sharing
 variables with the outer group was rewritten as if well-designed

---
 Query/QueryTree.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Query/QueryTree.cpp b/Query/QueryTree.cpp
index 59b4ec7..e1e5bb7 100644
--- a/Query/QueryTree.cpp
+++ b/Query/QueryTree.cpp
@@ -313,7 +313,7 @@ pair<Varset, Varset> GroupPattern::checkNoMinusAndOptionalVarAndSafeFilter(Varse
 			for (int j = 0; j < (int)this->sub_group_pattern[i].unions.size(); j++)
 			{
 				pair<Varset, Varset> sub_return_varset =
-					this->sub_group_pattern[i].unions[j].checkNoMinusAndOptionalVarAndSafeFilter(occur_varset, ban_varset, check_condition);
+					this->sub_group_pattern[i].unions[j].checkNoMinusAndOptionalVarAndSafeFilter(Varset(), ban_varset, check_condition);
 
 				if (j == 0)
 					sub_occur_varset = sub_return_varset.first;
@@ -323,6 +323,10 @@ pair<Varset, Varset> GroupPattern::checkNoMinusAndOptionalVarAndSafeFilter(Varse
 				sub_ban_varset += sub_return_varset.second;
 			}
 
+			//occur before
+			if (occur_varset.hasCommonVar(sub_ban_varset))
+				check_condition = false;
+
 			new_ban_varset += sub_ban_varset;
 			occur_varset += sub_occur_varset;
 			ban_varset += new_ban_varset;
-- 
2.43.0


From cde223d76f4644ed37b444c3e29d260dd1b45898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:31 +0000
Subject: [PATCH 019/107] fix: groups of constant triples only, and OPTIONAL
 without solutions at the start of a group, lost the solution that binds
 nothing

---
 Query/GeneralEvaluation.cpp | 20 ++++++++------------
 Query/TempResult.cpp        | 14 ++++++++++++++
 Query/TempResult.h          |  3 +++
 3 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 738a588..3cb8790 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -425,7 +425,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 {
 	// If ASK query, and only one BGP, check if every triple consists of all constants
 	// If so, set a special result so that getFinalResult will know
-	if (this->query_tree.getQueryForm() == QueryTree::Ask_Query)
+	if (this->query_tree.getQueryForm() == QueryTree::Ask_Query && dep == 0)
 	{
 		bool singleBGP = true, allConstants = true;
 		vector<Triple> triple_vt;
@@ -754,18 +754,13 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 						}
 					}
 					
-					if (!constants_hold && sub_result->results.empty())
-						sub_result->results.push_back(TempResult());	// no solution
+					if (sub_result->results.empty())	// only triples of constants
+						sub_result->setConstant(constants_hold);
 
 					// printf("Pattern_type result: \n");
 					// result->print();
 
-					if (constants_hold && bgp_query_vec.empty())
-					{
-						// Only triples of constants, all of which hold: nothing to join
-						delete sub_result;
-					}
-					else if (result->results.empty())
+					if (result->results.empty())
 					{
 						delete result;
 						result = sub_result;
@@ -869,7 +864,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 					#endif
 					vector<vector<string> > encode_varset;
 					vector<vector<GroupPattern::Pattern> > basic_query_handle;
-					bool has_self_loop = false, constants_hold = true;
+					bool has_self_loop = false, has_constants = false, constants_hold = true;
 
 					// Get connected block (BGP): merge the block IDs of triples with common vars //
 					triple_pattern.initPatternBlockid();
@@ -904,6 +899,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 							if (triple_pattern.sub_group_pattern[l].pattern.varset.empty())
 							{
 								//// A triple of constants only is a condition on the whole group ////
+								has_constants = true;
 								constants_hold = constants_hold && BGPQuery::CheckConstBGPExist({getBgpTriple(triple_pattern.sub_group_pattern[l].pattern)}, kvstore);
 								continue;
 							}
@@ -1081,8 +1077,8 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 						}
 					}
 
-					if (!constants_hold && sub_result->results.empty())
-						sub_result->results.push_back(TempResult());	// no solution
+					if (has_constants && sub_result->results.empty())	// only triples of constants
+						sub_result->setConstant(constants_hold);
 
 					for (int l = 0; l < (int)triple_pattern.sub_group_pattern.size(); l++)
 					{
diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 33b06e0..dde1fee 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -1302,6 +1302,13 @@ void TempResultSet::release()
 		this->results[i].release();
 }
 
+void TempResultSet::setConstant(bool holds)
+{
+	this->results.assign(1, TempResult());
+	if (holds)
+		this->results[0].result.push_back(TempResult::ResultPair());
+}
+
 int TempResultSet::findCompatibleResult(Varset &_id_varset, Varset &_str_varset)
 {
 	for (int i = 0; i < (int)this->results.size(); i++)
@@ -1396,6 +1403,13 @@ void TempResultSet::doOptional(TempResultSet &x, TempResultSet &r, StringIndex *
 	{
 		this->initial = false;
 		this->doUnion(x, r);
+
+		// Without a solution of the OPTIONAL, the solution that binds nothing remains
+		bool no_solution = true;
+		for (int i = 0; i < (int)r.results.size(); i++)
+			no_solution = no_solution && r.results[i].result.empty();
+		if (no_solution)
+			r.setConstant(true);
 		return;
 	}
 
diff --git a/Query/TempResult.h b/Query/TempResult.h
index 78542a2..be28ccc 100644
--- a/Query/TempResult.h
+++ b/Query/TempResult.h
@@ -79,6 +79,9 @@ class TempResultSet
 
 		void release();
 
+		// No variables, and one row (holds) or none
+		void setConstant(bool holds);
+
 		int findCompatibleResult(Varset &_id_varset, Varset &_str_varset);
 
 		void doJoin(TempResultSet &x, TempResultSet &r, StringIndex *stringindex, Varset &entity_literal_varset);
-- 
2.43.0


From 46f53b4548328917b5f176138ca7526ee6c3b3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:10 +0000
Subject: [PATCH 020/107] fix: a MINUS at the start of a group lost the
 solution that binds nothing

---
 Query/TempResult.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index dde1fee..48b9fff 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -1456,6 +1456,13 @@ void TempResultSet::doMinus(TempResultSet &x, TempResultSet &r, StringIndex *str
 {
 	long tv_begin = Util::get_cur_time();
 
+	// Nothing precedes the MINUS: the solution that binds nothing shares no variable with x
+	if (this->results.empty() && this->initial)
+	{
+		r.setConstant(true);
+		return;
+	}
+
 	if (x.results.empty())
 	{
 		this->doUnion(x, r);
-- 
2.43.0


From 1a20b28f0def6c7f0fcc87003127b1078362a012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 021/107] fix: LIMIT was applied before OFFSET, DISTINCT,
 aggregation and joins between blocks

---
 Query/GeneralEvaluation.cpp | 36 ++++++++++++++++++++++++++----------
 Query/GeneralEvaluation.h   |  1 +
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 3cb8790..d8e4821 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -421,6 +421,21 @@ void GeneralEvaluation::getAllPattern(const GroupPattern &group_pattern, vector<
 	}
 }
 
+/**
+	The number of solutions after which evaluation may stop.
+
+	@return LIMIT + OFFSET, or -1 if more solutions may be needed to compute the answer.
+*/
+int GeneralEvaluation::rowsNeeded()
+{
+	if (this->query_tree.getLimit() == -1 \
+		|| this->query_tree.getProjectionModifier() == QueryTree::ProjectionModifier::Modifier_Distinct \
+		|| this->query_tree.checkAtLeastOneAggregateFunction() \
+		|| !this->query_tree.getGroupByVarset().empty())
+		return -1;
+	return this->query_tree.getLimit() + this->query_tree.getOffset();
+}
+
 TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 {
 	// If ASK query, and only one BGP, check if every triple consists of all constants
@@ -547,9 +562,9 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 				QueryInfo query_info;
 				query_info.limit_ = false;
 				query_info.limit_num_ = 0;
-				if(this->query_tree.getLimit()!=-1 && this->query_tree.getSingleBGP()) {
+				if(dep == 0 && this->query_tree.getSingleBGP() && rowsNeeded() > 0) {
 					query_info.limit_ = true;
-					query_info.limit_num_ = this->query_tree.getLimit();
+					query_info.limit_num_ = rowsNeeded();
 				}
 				query_info.is_distinct_ = this->query_tree.getProjectionModifier() == QueryTree::ProjectionModifier::Modifier_Distinct;
 				query_info.ordered_by_expressions_ = make_shared<vector<Order>>();
@@ -687,6 +702,8 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 					#ifndef TEST_BGPQUERY
 					this->optimizer_->DoQuery(sparql_query,query_info);
 					#else
+					if (bgp_query_vec.size() != 1 || st != 0 || i + 1 != (int)group_pattern.sub_group_pattern.size())
+						query_info.limit_ = false;	// rows of one block may find no partner in another
 					for (size_t j = 0; j < bgp_query_vec.size(); j++)
 					{
 						unique_ptr<unsigned[]>& p2id = bgp_query_vec[j]->resultPositionToId();
@@ -993,9 +1010,9 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 
 					query_info.limit_ = false;
 					query_info.limit_num_ = -1;
-					if(this->query_tree.getLimit()!=-1 && this->query_tree.getSingleBGP() && !has_self_loop) {
+					if(dep == 0 && this->query_tree.getSingleBGP() && bgp_query_vec.size() == 1 && !has_self_loop && rowsNeeded() > 0) {
 						query_info.limit_ = true;
-						query_info.limit_num_ = this->query_tree.getLimit();
+						query_info.limit_num_ = rowsNeeded();
 					}
 
 					query_info.is_distinct_ = this->query_tree.getProjectionModifier() == QueryTree::ProjectionModifier::Modifier_Distinct;
@@ -1149,7 +1166,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 								// If FILTER scope is global && no ORDER BY && is the last operation, doFilter with limit
 								if (dep == 0 && query_tree.getOrderByVarset().empty() && l == rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern.size() - 1) {
 									sub_result->doFilter(rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[l].filter, kvstore,\
-										rewriting_evaluation_stack[dep].group_pattern.group_pattern_subject_object_maximal_varset, query_tree.getLimit());
+										rewriting_evaluation_stack[dep].group_pattern.group_pattern_subject_object_maximal_varset, rowsNeeded());
 								} else
 									sub_result->doFilter(rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[l].filter, kvstore,\
 										rewriting_evaluation_stack[dep].group_pattern.group_pattern_subject_object_maximal_varset);
@@ -1202,7 +1219,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 								// If FILTER scope is global && no ORDER BY && is the last operation, doFilter with limit
 								if (dep == 0 && query_tree.getOrderByVarset().empty() && l == rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern.size() - 1) {
 									sub_result->doFilter(rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[l].filter, kvstore,\
-										rewriting_evaluation_stack[dep].group_pattern.group_pattern_subject_object_maximal_varset, query_tree.getLimit());
+										rewriting_evaluation_stack[dep].group_pattern.group_pattern_subject_object_maximal_varset, rowsNeeded());
 								} else
 									sub_result->doFilter(rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[l].filter, kvstore,\
 										rewriting_evaluation_stack[dep].group_pattern.group_pattern_subject_object_maximal_varset);
@@ -1277,7 +1294,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 		{
             // If FILTER scope is global && no ORDER BY && is the last operation, doFilter with limit
 			if (dep == 0 && query_tree.getOrderByVarset().empty() && i == group_pattern.sub_group_pattern.size() - 1)
-				result->doFilter(group_pattern.sub_group_pattern[i].filter, kvstore, group_pattern.group_pattern_subject_object_maximal_varset, query_tree.getLimit());
+				result->doFilter(group_pattern.sub_group_pattern[i].filter, kvstore, group_pattern.group_pattern_subject_object_maximal_varset, rowsNeeded());
 			else
 				result->doFilter(group_pattern.sub_group_pattern[i].filter, kvstore, group_pattern.group_pattern_subject_object_maximal_varset);
 			result->initial = false;
@@ -3584,8 +3601,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 		}
 #endif
 
-		if (!(query_tree.getSingleBGP() && query_tree.getLimit() != -1 && ranked))
-			ret_result.setOutputOffsetLimit(this->query_tree.getOffset(), this->query_tree.getLimit());
+		ret_result.setOutputOffsetLimit(this->query_tree.getOffset(), this->query_tree.getLimit());
 		if (!ret_result.checkUseStream())
 		{
 			ret_result.answer = new string*[ret_result.ansNum];
@@ -3596,7 +3612,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 		{
 			vector <unsigned> keys;
 			vector <bool> desc;
-			if (!(query_tree.getSingleBGP() && query_tree.getLimit() != -1 && ranked))
+			if (!ranked)
 			{
 				// Else, ORDER BY will already have been processed at the BGP level
 				for (int i = 0; i < (int)this->query_tree.getOrderVarVector().size(); i++)
diff --git a/Query/GeneralEvaluation.h b/Query/GeneralEvaluation.h
index 2523754..34c3b78 100644
--- a/Query/GeneralEvaluation.h
+++ b/Query/GeneralEvaluation.h
@@ -130,6 +130,7 @@ class GeneralEvaluation
 	public:
 		bool expanseFirstOuterUnionGroupPattern(GroupPattern &group_pattern, std::deque<GroupPattern> &queue);
 
+		int rowsNeeded();
 		TempResultSet* queryEvaluation(int dep);
 
 		void getFinalResult(ResultSet &ret_result);
-- 
2.43.0


From 465d21f47801e90379c0de7505efdf292d2b3518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:17 +0000
Subject: [PATCH 022/107] fix: statistics of unknown predicates and of
 predicates added after loading were read out of bounds

---
 Database/Database.cpp      | 22 ++++++++++++++++++++++
 Database/Database.h        |  4 ++++
 Database/PlanGenerator.cpp | 12 ++++++------
 Database/PlanGenerator.h   |  4 ++++
 4 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 92064fc..3907d1d 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -461,6 +461,7 @@ Database::allocPredicateID()
 			allocPredicateID_lock.unlock();
 			return -1;
 		}
+		this->growPreMap();
 	}
 	else
 	{
@@ -519,6 +520,7 @@ void Database::setPreMap()
 	this->pre2num = new TYPE_TRIPLE_NUM[this->limitID_predicate];
 	this->pre2sub = new TYPE_TRIPLE_NUM[this->limitID_predicate];
 	this->pre2obj = new TYPE_TRIPLE_NUM[this->limitID_predicate];
+	this->pre_map_size = this->limitID_predicate;
 	TYPE_PREDICATE_ID valid = 0, i, t;
 
 	indicators::ProgressBar bar{
@@ -595,6 +597,24 @@ void Database::setPreMap()
 	*/
 }
 
+// the statistics arrays must cover every predicate id; queries of transactions may still read the old arrays,
+// which are kept until the database is unloaded
+void Database::growPreMap()
+{
+	if (this->pre2num == NULL || this->limitID_predicate <= this->pre_map_size)
+		return;
+	TYPE_PREDICATE_ID size = max(2 * this->pre_map_size, this->limitID_predicate + 16);
+	TYPE_TRIPLE_NUM **maps[3] = {&this->pre2num, &this->pre2sub, &this->pre2obj};
+	for (TYPE_TRIPLE_NUM **map : maps)
+	{
+		TYPE_TRIPLE_NUM *grown = new TYPE_TRIPLE_NUM[size]();
+		copy(*map, *map + this->pre_map_size, grown);
+		this->old_pre_maps.emplace_back(*map);
+		*map = grown;
+	}
+	this->pre_map_size = size;
+}
+
 void Database::setStringBuffer()
 {
 	// BETTER: assign according to memory manager
@@ -1551,6 +1571,7 @@ bool Database::unload()
 	this->pre2sub = NULL;
 	delete[] this->pre2obj;
 	this->pre2obj = NULL;
+	this->old_pre_maps.clear();
 	// cout << "delete entity buffer" << endl;
 	delete this->entity_buffer;
 	this->entity_buffer = NULL;
@@ -1604,6 +1625,7 @@ void Database::clear()
 	this->pre2sub = NULL;
 	delete[] this->pre2obj;
 	this->pre2obj = NULL;
+	this->old_pre_maps.clear();
 	delete this->entity_buffer;
 	this->entity_buffer = NULL;
 	delete this->literal_buffer;
diff --git a/Database/Database.h b/Database/Database.h
index bc6c3e7..9ea0121 100644
--- a/Database/Database.h
+++ b/Database/Database.h
@@ -192,9 +192,13 @@ private:
 	TYPE_TRIPLE_NUM *pre2sub;
 	// pre2objnum mapping
 	TYPE_TRIPLE_NUM *pre2obj;
+	// number of predicate ids the three mappings cover, and their replaced versions
+	TYPE_PREDICATE_ID pre_map_size = 0;
+	vector<unique_ptr<TYPE_TRIPLE_NUM[]>> old_pre_maps;
 	// valid: check from minNumPID to maxNumPID
 	TYPE_PREDICATE_ID maxNumPID, minNumPID;
 	void setPreMap();
+	void growPreMap();
 
 	// TODO: set the buffer capacity as dynamic according to the current memory usage
 	// string buffer
diff --git a/Database/PlanGenerator.cpp b/Database/PlanGenerator.cpp
index 8d2ca55..1cb0751 100644
--- a/Database/PlanGenerator.cpp
+++ b/Database/PlanGenerator.cpp
@@ -787,7 +787,7 @@ long long PlanGenerator::CostModelForp2soOptimization(unsigned int node_1_id, un
 		// cout << "true size = " << s_o_list_len << endl;
 		// delete[] s_o_list;
 
-		return max((unsigned long long)1,(unsigned long long)(pre2num[var1_descrip->so_edge_pre_id_[linked_edge_pre_const_index[0]]]/(both_not_linked_const ? 1.0 : 0.5)));
+		return max((unsigned long long)1,(unsigned long long)(PreStat(pre2num, var1_descrip->so_edge_pre_id_[linked_edge_pre_const_index[0]])/(both_not_linked_const ? 1.0 : 0.5)));
 	} else{
 		return max((unsigned long long)1, (unsigned long long)(triples_num/(both_not_linked_const ? 1.0 : 0.5)));
 	}
@@ -832,11 +832,11 @@ vector<shared_ptr<AffectOneNode>> PlanGenerator::CompleteCandidate() {
 			if(pre_const && nei_var){
 				double border = size / (Util::logarithm(2, size) + 1);
 				unsigned pre_id = var_descrip->so_edge_pre_id_[i];
-				if ((!no_candidate) && (double)(pre2num[pre_id]) > border) {
+				if ((!no_candidate) && (double)(PreStat(pre2num, pre_id)) > border) {
 					continue;
 				}
-				if ((var_descrip->so_edge_type_[i] == Util::EDGE_IN && pre2obj[pre_id] > estimate_num) ||
-					(var_descrip->so_edge_type_[i] == Util::EDGE_OUT && pre2sub[pre_id] > estimate_num)) {
+				if ((var_descrip->so_edge_type_[i] == Util::EDGE_IN && PreStat(pre2obj, pre_id) > estimate_num) ||
+					(var_descrip->so_edge_type_[i] == Util::EDGE_OUT && PreStat(pre2sub, pre_id) > estimate_num)) {
 					continue;
 				}
 				unsigned triple_index = var_descrip->so_edge_index_[i];
@@ -965,7 +965,7 @@ void PlanGenerator::AddSatelliteNode(PlanTree* best_plan) {
 
 		// todo: predegree or pre_list; nei must give it a estimatation num
 		if(var_descrip->so_edge_pre_type_[0] == VarDescriptor::PreType::ConPreType)
-			satellitenode_score.emplace_back((double)(pre2num[var_descrip->so_edge_pre_id_[0]]) /
+			satellitenode_score.emplace_back((double)(PreStat(pre2num, var_descrip->so_edge_pre_id_[0])) /
 												var_to_num_map[var_descrip->so_edge_nei_[0]], satellitenode_index);
 		else
 			satellitenode_score.emplace_back((double)(triples_num) / var_to_num_map[var_descrip->so_edge_nei_[0]],
@@ -1024,7 +1024,7 @@ double PlanGenerator::NodeScore(unsigned int var_id) {
 		unsigned nei_id = var_descrip->so_edge_nei_[nei_index];
         if (find(plan_var_vec.begin(), plan_var_vec.end(), nei_id) == plan_var_vec.end()) continue;
 
-		unsigned pre_size = (var_descrip->IsIthEdgePreVar(nei_index) ? max((unsigned)triples_num/limitID_predicate, (unsigned)2) : pre2num[var_descrip->so_edge_pre_id_[nei_index]]);
+		unsigned pre_size = (var_descrip->IsIthEdgePreVar(nei_index) ? max((unsigned)triples_num/max((unsigned)limitID_predicate, (unsigned)1), (unsigned)2) : PreStat(pre2num, var_descrip->so_edge_pre_id_[nei_index]));
 		node_score += PlanGenerator::PARAM_PRE / (double)(pre_size+1);
 	}
 
diff --git a/Database/PlanGenerator.h b/Database/PlanGenerator.h
index 69a6482..89d885b 100644
--- a/Database/PlanGenerator.h
+++ b/Database/PlanGenerator.h
@@ -37,6 +37,10 @@ private:
 	TYPE_TRIPLE_NUM* pre2num;
 	TYPE_TRIPLE_NUM* pre2sub;
 	TYPE_TRIPLE_NUM* pre2obj;
+	// statistics of a predicate; 0 for one that does not exist
+	TYPE_TRIPLE_NUM PreStat(const TYPE_TRIPLE_NUM* stat, unsigned pre_id) const {
+		return pre_id < (unsigned)limitID_predicate ? stat[pre_id] : 0;
+	}
 	shared_ptr<Transaction> txn;
 
 	// only contain plans joining not-satellite nodes
-- 
2.43.0


From 6db911e223be368a59c0e04582f694a2ed969c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:17 +0000
Subject: [PATCH 023/107] fix: removing a triple with the same subject and
 object freed the entity's id twice

---
 Database/Database.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 3907d1d..5e5abeb 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -3464,7 +3464,7 @@ bool Database::removeTriple(const TripleWithObjType &_triple, vector<unsigned> *
 		if (is_obj_entity)
 		{
 			obj_degree = this->kvstore->getEntityDegree(_obj_id);
-			if (obj_degree == 0)
+			if (obj_degree == 0 && _obj_id != _sub_id) // else its id is free already
 			{
 				this->kvstore->subEntityByID(_obj_id);
 				this->kvstore->subIDByEntity(_triple.object);
-- 
2.43.0


From 422ba656bdb41baa9fccef6d865bd0a9bfd4b355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:38 +0000
Subject: [PATCH 024/107] fix: DELETE/INSERT WHERE inserted its DELETE
 templates too and reported only one of the two counts

---
 Database/Database.cpp  | 13 +++++++++----
 Parser/QueryParser.cpp |  5 ++++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 5e5abeb..3e48878 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -1919,6 +1919,11 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 			general_evaluation.getQueryTree().setProjectionAsterisk();
 			general_evaluation.doQuery();
 
+			// both sets of triples are made before any triple is removed: removals free the ids in the solutions
+			TripleWithObjType *insert_triple = NULL;
+			TYPE_TRIPLE_NUM insert_triple_num = 0;
+			if (general_evaluation.getQueryTree().getUpdateType() == QueryTree::Insert_Clause || general_evaluation.getQueryTree().getUpdateType() == QueryTree::Modify_Clause)
+				general_evaluation.prepareUpdateTriple(general_evaluation.getQueryTree().getInsertPatterns(), insert_triple, insert_triple_num);
 			if (general_evaluation.getQueryTree().getUpdateType() == QueryTree::Delete_Where || general_evaluation.getQueryTree().getUpdateType() == QueryTree::Delete_Clause || general_evaluation.getQueryTree().getUpdateType() == QueryTree::Modify_Clause)
 			{
 				general_evaluation.prepareUpdateTriple(general_evaluation.getQueryTree().getDeletePatterns(), update_triple, update_triple_num);
@@ -1926,16 +1931,16 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 				//{
 				// update_triple[i] = trie->Compress(update_triple[i], Trie::QUERYMODE);
 				//}
-				success_num = remove(update_triple, update_triple_num, false, txn);
+				success_num += remove(update_triple, update_triple_num, false, txn);
 			}
-			if (general_evaluation.getQueryTree().getUpdateType() == QueryTree::Insert_Clause || general_evaluation.getQueryTree().getUpdateType() == QueryTree::Modify_Clause)
+			if (insert_triple != NULL)
 			{
-				general_evaluation.prepareUpdateTriple(general_evaluation.getQueryTree().getInsertPatterns(), update_triple, update_triple_num);
 				// for(int i = 0; i < update_triple_num; i++)
 				//{
 				// update_triple[i] = trie->Compress(update_triple[i], Trie::QUERYMODE);
 				//}
-				success_num = insert(update_triple, update_triple_num, false, txn);
+				success_num += insert(insert_triple, insert_triple_num, false, txn);
+				delete[] insert_triple;
 			}
 		}
 
diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index 22609ff..7afa1e4 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -1476,9 +1476,12 @@ antlrcpp::Any QueryParser::visitModify(SPARQLParser::ModifyContext *ctx)
 
 	if (ctx->deleteClause() && ctx->insertClause())
 	{
-		query_tree_ptr->setUpdateType(QueryTree::Modify_Clause);
+		// the update type decides where the templates of a clause go
+		query_tree_ptr->setUpdateType(QueryTree::Delete_Clause);
 		visit(ctx->deleteClause());
+		query_tree_ptr->setUpdateType(QueryTree::Insert_Clause);
 		visit(ctx->insertClause());
+		query_tree_ptr->setUpdateType(QueryTree::Modify_Clause);
 	}
 	else if (ctx->deleteClause())
 	{
-- 
2.43.0


From 0400fccf4939832039a178ec1210ede9ccbdb953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:21 +0000
Subject: [PATCH 025/107] fix: inserting triples counted neither subjects known
 as objects only nor instances of classes

---
 Database/Database.cpp | 7 ++++++-
 Database/Database.h   | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 3e48878..5dd6e3b 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -2189,7 +2189,7 @@ void Database::setTypePredicateName(string &names)
 	this->type_predicate_name = names;
 }
 
-bool Database::checkIsTypePredicate(string &predicate)
+bool Database::checkIsTypePredicate(const string &predicate)
 {
 	vector<string> names;
 	Util::split(this->type_predicate_name, "@@", names);
@@ -3363,6 +3363,11 @@ bool Database::insertTriple(const TripleWithObjType &_triple, vector<unsigned> *
 		else
 		{
 			this->triples_num++; // NOTE: triples_num set here
+			// an entity known so far as an object only becomes a subject
+			if (!_is_new_sub && this->kvstore->getEntityOutDegree(_sub_id) == 0)
+				this->sub_num++;
+			if (is_obj_entity && this->checkIsTypePredicate(_triple.predicate))
+				this->umap[_triple.object]++;
 		}
 	}
 
diff --git a/Database/Database.h b/Database/Database.h
index 9ea0121..3e4117a 100644
--- a/Database/Database.h
+++ b/Database/Database.h
@@ -92,7 +92,7 @@ public:
 
 	void setTypePredicateName(string &names);
 
-	bool checkIsTypePredicate(string &predicate);
+	bool checkIsTypePredicate(const string &predicate);
 
 	// id tuples file
 	string getIDTuplesFile();
-- 
2.43.0


From e798165fcebc9029cd36bc354cac4642e0b80db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:21 +0000
Subject: [PATCH 026/107] fix: batch removal of a triple with an unknown term
 removed the triple of the first ids

---
 Database/Database.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 5dd6e3b..8fda29e 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -4087,7 +4087,9 @@ Database::batch_remove(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _tripl
 		write_update_log(_triples, _triple_num, 0, txn);
 	}
 
-	vector<ID_TUPLE> id_tuples(_triple_num);
+	// triples with an unknown term are not in the database and leave no tuple
+	vector<ID_TUPLE> id_tuples;
+	id_tuples.reserve(_triple_num);
 	for (unsigned i = 0; i < _triple_num; ++i)
 	{
 		TripleWithObjType _triple = _triples[i];
@@ -4112,13 +4114,17 @@ Database::batch_remove(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _tripl
 			continue;
 		}
 
-		id_tuples[i].subid = _sub_id;
-		id_tuples[i].preid = _pre_id;
-		id_tuples[i].objid = _obj_id;
+		ID_TUPLE id_tuple;
+		id_tuple.subid = _sub_id;
+		id_tuple.preid = _pre_id;
+		id_tuple.objid = _obj_id;
+		id_tuples.push_back(id_tuple);
 		sub_ids.insert(_sub_id);
 		pre_ids.insert(_pre_id);
 		obj_ids.insert(_obj_id);
 	}
+	if (id_tuples.empty())
+		return 0;
 
 	sort(id_tuples.begin(), id_tuples.end(), Util::spo_cmp_idtuple);
 	auto new_end = unique(id_tuples.begin(), id_tuples.end(), Util::equal);
-- 
2.43.0


From 21ca9ac60c670acaad01bdad591cbd01e1f4eafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:46 +0000
Subject: [PATCH 027/107] fix: batch updates miscounted subjects, and instances
 of classes for triples already there or absent

---
 Database/Database.cpp | 37 ++++++++++++++++---------------------
 Database/Database.h   |  2 +-
 2 files changed, 17 insertions(+), 22 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 8fda29e..109eca2 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -3940,7 +3940,6 @@ Database::batch_insert(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _tripl
 	unsigned update_num_o = 0;
 	unsigned update_num_subject = 0;
 	set<TYPE_ENTITY_LITERAL_ID> sub_lists;
-	set<TYPE_ENTITY_LITERAL_ID> obj_lists;
 
 	if (!_is_restore)
 	{
@@ -3955,17 +3954,13 @@ Database::batch_insert(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _tripl
 		if (_sub_id == INVALID_ENTITY_LITERAL_ID)
 		{
 			_sub_id = this->allocEntityID();
-			update_num_subject = update_num_subject + 1;
 			(this->kvstore)->setIDByEntity(_triple.subject, _sub_id);
 			(this->kvstore)->setEntityByID(_sub_id, _triple.subject);
 			vertices.push_back(_sub_id);
-			sub_lists.insert(_sub_id);
 		}
-		else if (obj_lists.find(_sub_id) != obj_lists.end() && sub_lists.find(_sub_id) == sub_lists.end())
-		{
+		// no triple of the batch is stored yet: an entity without outgoing edges becomes a subject
+		if (sub_lists.insert(_sub_id).second && this->kvstore->getEntityOutDegree(_sub_id) == 0)
 			update_num_subject = update_num_subject + 1;
-			sub_lists.insert(_sub_id);
-		}
 
 		TYPE_PREDICATE_ID _pre_id = (this->kvstore)->getIDByPredicate(_triple.predicate);
 		if (_pre_id == INVALID_PREDICATE_ID)
@@ -3987,7 +3982,6 @@ Database::batch_insert(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _tripl
 				(this->kvstore)->setIDByEntity(_triple.object, _obj_id);
 				(this->kvstore)->setEntityByID(_obj_id, _triple.object);
 				vertices.push_back(_obj_id);
-				obj_lists.insert(_obj_id);
 			}
 		}
 		else
@@ -4125,6 +4119,10 @@ Database::batch_remove(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _tripl
 	}
 	if (id_tuples.empty())
 		return 0;
+	set<unsigned> had_triples;
+	for (auto _sub_id : sub_ids)
+		if (this->kvstore->getEntityOutDegree(_sub_id) > 0)
+			had_triples.insert(_sub_id);
 
 	sort(id_tuples.begin(), id_tuples.end(), Util::spo_cmp_idtuple);
 	auto new_end = unique(id_tuples.begin(), id_tuples.end(), Util::equal);
@@ -4162,6 +4160,8 @@ Database::batch_remove(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _tripl
 		for (auto _sub_id : sub_ids)
 		{
 			int sub_degree = (this->kvstore)->getEntityDegree(_sub_id);
+			if (had_triples.count(_sub_id) && this->kvstore->getEntityOutDegree(_sub_id) == 0)
+				update_num_subject = update_num_subject + 1;
 			if (sub_degree == 0)
 			{
 				string subject = this->kvstore->getEntityByID(_sub_id);
@@ -4170,8 +4170,6 @@ Database::batch_remove(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _tripl
 				this->kvstore->subEntityByID(_sub_id);
 				this->kvstore->subIDByEntity(subject);
 				this->freeEntityID(_sub_id);
-				//this->sub_num--;
-				update_num_subject = update_num_subject + 1;
 				vertices.push_back(_sub_id);
 			}
 		}
@@ -4257,13 +4255,13 @@ void Database::sub_batch_update(vector<ID_TUPLE> id_tuples, TYPE_TRIPLE_NUM _tri
 				{
 					if (type == UPDATE_TYPE::SUBJECT_INSERT)
 					{
+						updateUmap(type, sub_id, data);
 						update_num += this->kvstore->updateInsert_s2values(sub_id, data);
-						updateUmap(type, data);
 					}
 					else if (type == UPDATE_TYPE::SUBJECT_REMOVE)
 					{
+						updateUmap(type, sub_id, data);
 						update_num += this->kvstore->updateRemove_s2values(sub_id, data);
-						updateUmap(type, data);
 					}
 				}
 				else
@@ -4279,13 +4277,13 @@ void Database::sub_batch_update(vector<ID_TUPLE> id_tuples, TYPE_TRIPLE_NUM _tri
 		{
 			if (type == UPDATE_TYPE::SUBJECT_INSERT)
 			{
+				updateUmap(type, sub_id, data);
 				update_num += this->kvstore->updateInsert_s2values(sub_id, data);
-				updateUmap(type, data);
 			}
 			else if (type == UPDATE_TYPE::SUBJECT_REMOVE)
 			{
+				updateUmap(type, sub_id, data);
 				update_num += this->kvstore->updateRemove_s2values(sub_id, data);
-				updateUmap(type, data);
 			}
 		}
 		else
@@ -4350,12 +4348,10 @@ void Database::sub_batch_update(vector<ID_TUPLE> id_tuples, TYPE_TRIPLE_NUM _tri
 					if (type == UPDATE_TYPE::OBJECT_INSERT)
 					{
 						update_num += this->kvstore->updateInsert_o2values(obj_id, data);
-						updateUmap(type, data);
 					}
 					else if (type == UPDATE_TYPE::OBJECT_REMOVE)
 					{
 						update_num += this->kvstore->updateRemove_o2values(obj_id, data);
-						updateUmap(type, data);
 					}
 				}
 				else
@@ -4375,12 +4371,10 @@ void Database::sub_batch_update(vector<ID_TUPLE> id_tuples, TYPE_TRIPLE_NUM _tri
 			if (type == UPDATE_TYPE::OBJECT_INSERT)
 			{
 				update_num += this->kvstore->updateInsert_o2values(obj_id, data);
-				updateUmap(type, data);
 			}
 			else if (type == UPDATE_TYPE::OBJECT_REMOVE)
 			{
 				update_num += this->kvstore->updateRemove_o2values(obj_id, data);
-				updateUmap(type, data);
 			}
 		}
 		else
@@ -4957,7 +4951,8 @@ unordered_map<string, unsigned long long> Database::getStatisticsInfo()
 	return this->umap;
 }
 
-void Database::updateUmap(UPDATE_TYPE type, const std::vector<unsigned>& _pidoidlist)
+// to be called before the triples of the subject are inserted or removed
+void Database::updateUmap(UPDATE_TYPE type, TYPE_ENTITY_LITERAL_ID _sub_id, const std::vector<unsigned>& _pidoidlist)
 {
 	umap_lock.lock();
 	for(unsigned i = 0; i < _pidoidlist.size(); i += 2)
@@ -4968,7 +4963,7 @@ void Database::updateUmap(UPDATE_TYPE type, const std::vector<unsigned>& _pidoid
 		{
 			string _obj = this->kvstore->getEntityByID(objid);
 			string _pre = this->kvstore->getPredicateByID(preid);
-			if (!_obj.empty() && this->checkIsTypePredicate(_pre))
+			if (!_obj.empty() && this->checkIsTypePredicate(_pre) && !this->exist_triple(_sub_id, preid, objid))
 			{
 				auto it = this->umap.find(_obj);
 				if (it != this->umap.end())
@@ -4985,7 +4980,7 @@ void Database::updateUmap(UPDATE_TYPE type, const std::vector<unsigned>& _pidoid
 		{
 			string _obj = this->kvstore->getEntityByID(objid);
 			string _pre = this->kvstore->getPredicateByID(preid);
-			if (!_obj.empty() && this->checkIsTypePredicate(_pre))
+			if (!_obj.empty() && this->checkIsTypePredicate(_pre) && this->exist_triple(_sub_id, preid, objid))
 			{
 				auto it = this->umap.find(_obj);
 				if (it != this->umap.end())
diff --git a/Database/Database.h b/Database/Database.h
index 3e4117a..9fa9046 100644
--- a/Database/Database.h
+++ b/Database/Database.h
@@ -361,7 +361,7 @@ private:
 	bool restore_update(multiset<string> &_i, multiset<string> &_r);
 	void clear_update_log();
 	bool write_update_log(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _triple_num, int type, shared_ptr<Transaction> txn);
-	void updateUmap(UPDATE_TYPE type, const std::vector<unsigned>& _pidoidlist);
+	void updateUmap(UPDATE_TYPE type, TYPE_ENTITY_LITERAL_ID _sub_id, const std::vector<unsigned>& _pidoidlist);
 };
 
 #endif //_DATABASE_DATABASE_H
-- 
2.43.0


From f2b38e2d41b7fd47bbfe4bcc9db53fa38b1ead5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:13 +0000
Subject: [PATCH 028/107] fix: the counts of instances by class were not saved
 when a database is saved or closed

---
 Database/Database.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 109eca2..bf78549 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -1588,7 +1588,7 @@ bool Database::unload()
 	if (if_loaded)
 	{
 		this->saveDBInfoFile();
-		// this->saveStatisticsInfoFile();
+		this->saveStatisticsInfoFile();
 		this->writeIDinfo();
 		this->initIDinfo();
 	}
@@ -1607,6 +1607,7 @@ bool Database::save()
 {
 	this->kvstore->flush();
 	this->saveDBInfoFile();
+	this->saveStatisticsInfoFile();
 	this->saveIDinfo();
 
 	this->stringindex->flush();
@@ -4897,16 +4898,13 @@ bool Database::saveStatisticsInfoFile()
 		Util::create_file(filepath);
 	}
 	file.open(filepath);
-	int i = 0;
 	for (auto &kv : this->umap)
 	{
 		// cout<<"first:"<<kv.first<<",second:"<<kv.second<<endl;
 		file << kv.first << "@@" << kv.second << endl;
-		i++;
 	}
 	file.flush();
 	file.close();
-	cout << "save the statistics file successfully! total " << i << " records have been saved!" << endl;
 	return true;
 }
 
-- 
2.43.0


From d42bc77abf4d43bdd9692a3e103853a5c2389ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 029/107] fix: joins of two tables took predicate variables of
 one side as common to both

---
 Database/PlanTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Database/PlanTree.cpp b/Database/PlanTree.cpp
index 347600e..61df69e 100644
--- a/Database/PlanTree.cpp
+++ b/Database/PlanTree.cpp
@@ -501,7 +501,7 @@ PlanTree::PlanTree(PlanTree *left_plan, PlanTree *right_plan, BGPQuery *bgpquery
 			already_joined_pre_var.emplace_back(x);
 
 	for(auto x : left_plan->already_joined_pre_var){
-		if(find(right_plan->already_joined_pre_var.begin(), right_plan->already_joined_pre_var.end(), x) != right_plan->already_so_var.end()){
+		if(find(right_plan->already_joined_pre_var.begin(), right_plan->already_joined_pre_var.end(), x) != right_plan->already_joined_pre_var.end()){
 			public_variables->emplace_back(x);
 		}
 	}
-- 
2.43.0


From 025fe3fa5b562e67c34cce475803bceb1a366b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:44 +0000
Subject: [PATCH 030/107] fix: a MINUS compared terms that were converted by
 the wrong kind with computed ones

---
 Query/GeneralEvaluation.cpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index d8e4821..f265924 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -482,6 +482,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 	}
 
 	GroupPattern group_pattern;
+	Varset entity_varset = this->query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset;
 
 	// Check well-designed (TODO: check at every depth, now only check once) //
 	// If well-designed, split and refill group_pattern according to rewriting //
@@ -495,6 +496,8 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 		printf("||not well-designed at dep = %d||\n", dep);
 		printf("=================================\n");
 		group_pattern = rewriting_evaluation_stack[dep].group_pattern;
+		// Those of a group within a MINUS are not among the variables of the query
+		entity_varset += group_pattern.group_pattern_subject_object_maximal_varset;
 	}
 	else if (well_designed == 1)	// Well-designed, rewriting-based evaluation
 	{
@@ -542,7 +545,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 			else
 			{
 				TempResultSet *new_result = new TempResultSet();
-				result->doJoin(*temp, *new_result, this->stringindex, this->query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset);
+				result->doJoin(*temp, *new_result, this->stringindex, entity_varset);
 
 				temp->release();
 				result->release();
@@ -760,7 +763,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 						else
 						{
 							TempResultSet *new_result = new TempResultSet();
-							sub_result->doJoin(*temp, *new_result, this->stringindex, this->query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset);
+							sub_result->doJoin(*temp, *new_result, this->stringindex, entity_varset);
 
 							temp->release();
 							sub_result->release();
@@ -785,7 +788,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 					else
 					{
 						TempResultSet *new_result = new TempResultSet();
-						result->doJoin(*sub_result, *new_result, this->stringindex, this->query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset);
+						result->doJoin(*sub_result, *new_result, this->stringindex, entity_varset);
 
 						sub_result->release();
 						result->release();
@@ -828,7 +831,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 				else
 				{
 					TempResultSet *new_result = new TempResultSet();
-					result->doJoin(*sub_result, *new_result, this->stringindex, this->query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset);
+					result->doJoin(*sub_result, *new_result, this->stringindex, entity_varset);
 
 					sub_result->release();
 					result->release();
@@ -1083,7 +1086,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 						else
 						{
 							TempResultSet *new_result = new TempResultSet();
-							sub_result->doJoin(*temp, *new_result, this->stringindex, this->query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset);
+							sub_result->doJoin(*temp, *new_result, this->stringindex, entity_varset);
 
 							temp->release();
 							sub_result->release();
@@ -1130,7 +1133,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 							else
 							{
 								TempResultSet *new_result = new TempResultSet();
-								sub_result->doJoin(*temp, *new_result, this->stringindex, this->query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset);
+								sub_result->doJoin(*temp, *new_result, this->stringindex, entity_varset);
 
 								temp->release();
 								sub_result->release();
@@ -1195,7 +1198,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 								TempResultSet *temp = queryEvaluation(dep + 1);
 
 								TempResultSet *new_result = new TempResultSet();
-								sub_result->doOptional(*temp, *new_result, this->stringindex, this->query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset);
+								sub_result->doOptional(*temp, *new_result, this->stringindex, entity_varset);
 
 								temp->release();
 								sub_result->release();
@@ -1256,7 +1259,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 			else
 			{
 				TempResultSet *new_result = new TempResultSet();
-				result->doJoin(*sub_result_outer, *new_result, this->stringindex, this->query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset);
+				result->doJoin(*sub_result_outer, *new_result, this->stringindex, entity_varset);
 
 				sub_result_outer->release();
 				result->release();
@@ -1277,9 +1280,13 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 				TempResultSet *new_result = new TempResultSet();
 
 				if (group_pattern.sub_group_pattern[i].type == GroupPattern::SubGroupPattern::Optional_type)
-					result->doOptional(*temp, *new_result, this->stringindex, this->query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset);
+					result->doOptional(*temp, *new_result, this->stringindex, entity_varset);
 				else if (group_pattern.sub_group_pattern[i].type == GroupPattern::SubGroupPattern::Minus_type)
-					result->doMinus(*temp, *new_result, this->stringindex, this->query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset);
+				{
+					// The variables of a MINUS are not visible outside of it
+					Varset minus_entity_varset = entity_varset + group_pattern.sub_group_pattern[i].optional.group_pattern_subject_object_maximal_varset;
+					result->doMinus(*temp, *new_result, this->stringindex, minus_entity_varset);
+				}
 
 				temp->release();
 				result->release();
@@ -1336,7 +1343,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 	    		else
 		    	{
 		    		TempResultSet *new_result = new TempResultSet();
-	    			result->doJoin(*temp, *new_result, this->stringindex, this->query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset);
+	    			result->doJoin(*temp, *new_result, this->stringindex, entity_varset);
 
 		    		temp->release();
 	    			result->release();
@@ -1367,7 +1374,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 				else
 				{
 					TempResultSet *new_result = new TempResultSet();
-					result->doJoin(*temp_trs, *new_result, this->stringindex, this->query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset);
+					result->doJoin(*temp_trs, *new_result, this->stringindex, entity_varset);
 					temp_trs->release();
 					result->release();
 					delete temp_trs;
-- 
2.43.0


From 40697759d88934bccc57bb3d4f07ad30db2d4834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:33 +0000
Subject: [PATCH 031/107] fix: the variables and aggregates projected by a
 subquery were ignored unless it had modifiers

---
 Query/GeneralEvaluation.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index f265924..19b0a2e 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -1315,7 +1315,10 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 		{ 
             QueryTree& sub_query=group_pattern.sub_group_pattern[i].subquery;
             if(sub_query.getOffset()==0&&sub_query.getLimit()==-1&&sub_query.getGroupByVarset().empty()&&sub_query.getOrderVarVector().empty() \
-				&& sub_query.getProjectionModifier() == QueryTree::Modifier_None)
+				&& sub_query.getProjectionModifier() == QueryTree::Modifier_None \
+				&& !sub_query.checkAtLeastOneAggregateFunction() && !sub_query.checkAtLeastOneCompTree() \
+				&& (sub_query.checkProjectionAsterisk() \
+					|| sub_query.getGroupPattern().group_pattern_resultset_maximal_varset.belongTo(sub_query.getResultProjectionVarset())))
 			{
                 cout<<"### Subtree (simp.) print start###\n";
 		    	sub_query.getGroupPattern().print(0);
-- 
2.43.0


From cd43ca0bd854151ffca3e236f4c91c029aa74459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 032/107] fix: IN and NOT IN compared with the first element of
 the list only

---
 Query/TempResult.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 48b9fff..9366c82 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -1181,7 +1181,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		for (int i = 1; i < (int)root.children.size(); i++)
 		{
 			EvalMultitypeValue y;
-			y = doComp(root.children[1], row, id_cols, kvstore, this_varset);
+			y = doComp(root.children[i], row, id_cols, kvstore, this_varset);
 			EvalMultitypeValue equal = (x == y);
 			if (i == 1)
 				ret_femv = equal;
@@ -1203,7 +1203,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		for (int i = 1; i < (int)root.children.size(); i++)
 		{
 			EvalMultitypeValue y;
-			y = doComp(root.children[1], row, id_cols, kvstore, this_varset);
+			y = doComp(root.children[i], row, id_cols, kvstore, this_varset);
 			EvalMultitypeValue inequal = (x != y);
 			if (i == 1)
 				ret_femv = inequal;
-- 
2.43.0


From b5a60689378e90303943223867fa4d0e0e0173e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 033/107] fix: only booleans had an effective boolean value

---
 Query/TempResult.cpp        | 14 +++++---------
 Util/EvalMultitypeValue.cpp | 32 ++++++++++++++++++++------------
 Util/EvalMultitypeValue.h   |  1 +
 3 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 9366c82..7d6fca0 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -758,11 +758,8 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 	{
 		EvalMultitypeValue lRes, rRes;
 		lRes = doComp(root.children[0], row, id_cols, kvstore, this_varset);
-		if (lRes.datatype == EvalMultitypeValue::xsd_boolean) {
-			if ((root.oprt == "||" && lRes.bool_value.getValue() == 1) || (root.oprt == "&&" && lRes.bool_value.getValue() != 1))
-				return lRes;
-		} else if (root.oprt == "&&")
-			return lRes;
+		if ((root.oprt == "||" && lRes.getEBV().getValue() == 1) || (root.oprt == "&&" && lRes.getEBV().getValue() == 0))
+			return lRes || lRes;
 		rRes = doComp(root.children[1], row, id_cols, kvstore, this_varset);
 
 		if (root.oprt == "||")
@@ -1221,10 +1218,9 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		EvalMultitypeValue x, y, z;
 
 		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
-		if ((x.datatype == EvalMultitypeValue::xsd_boolean && x.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::error_value)
-			|| x.datatype != EvalMultitypeValue::xsd_boolean)
+		if (x.getEBV().getValue() == 2)
 			return ret_femv;
-		if (x.datatype == EvalMultitypeValue::xsd_boolean && x.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
+		if (x.getEBV().getValue() == 1)
 			ret_femv = doComp(root.children[1], row, id_cols, kvstore, this_varset);
 		else
 			ret_femv = doComp(root.children[2], row, id_cols, kvstore, this_varset);
@@ -1244,7 +1240,7 @@ void TempResult::doFilter(const CompTreeNode &filter, KVstore *kvstore, Varset &
 
     for (unsigned i = 0; save_num < limit_number && i < original_size-delete_num;) {
         EvalMultitypeValue ret_femv = doComp(filter, this->result[i], this_id_cols, kvstore, this_varset);
-        if (ret_femv.datatype == EvalMultitypeValue::xsd_boolean && ret_femv.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value) {
+        if (ret_femv.getEBV().getValue() == 1) {
             ++i;
             ++save_num;
         } else {
diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index 32c31c9..6fde154 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -163,6 +163,23 @@ EvalMultitypeValue::EffectiveBooleanValue
 }
 
 
+EvalMultitypeValue::EffectiveBooleanValue EvalMultitypeValue::getEBV()
+{
+	if (datatype == xsd_boolean)
+		return bool_value;
+	if (datatype == xsd_string || isSimpleLiteral())
+		return str_value != "\"\"";
+	if (datatype == xsd_integer)
+		return int_value != 0;
+	if (datatype == xsd_long)
+		return long_value != 0;
+	if (datatype == xsd_decimal || datatype == xsd_float)
+		return flt_value != 0 && flt_value == flt_value;
+	if (datatype == xsd_double)
+		return dbl_value != 0 && dbl_value == dbl_value;
+	return EffectiveBooleanValue::error_value;
+}
+
 bool EvalMultitypeValue::isSimpleLiteral()
 {
 	if (this->datatype == literal)
@@ -225,10 +242,7 @@ EvalMultitypeValue
 	ret_femv.datatype = xsd_boolean;
 	ret_femv.bool_value = EffectiveBooleanValue::error_value;
 
-	if (this->datatype != xsd_boolean)
-		return ret_femv;
-
-	ret_femv.bool_value = !this->bool_value;
+	ret_femv.bool_value = !getEBV();
 
 	ret_femv.deduceTermValue();
 	return ret_femv;
@@ -241,10 +255,7 @@ EvalMultitypeValue
 	ret_femv.datatype = xsd_boolean;
 	ret_femv.bool_value = EffectiveBooleanValue::error_value;
 
-	if (this->datatype != xsd_boolean && x.datatype != xsd_boolean)
-		return ret_femv;
-
-	ret_femv.bool_value = (this->bool_value || x.bool_value);
+	ret_femv.bool_value = (getEBV() || x.getEBV());
 
 	ret_femv.deduceTermValue();
 	return ret_femv;
@@ -257,10 +268,7 @@ EvalMultitypeValue
 	ret_femv.datatype = xsd_boolean;
 	ret_femv.bool_value = EffectiveBooleanValue::error_value;
 
-	if (this->datatype != xsd_boolean && x.datatype != xsd_boolean)
-		return ret_femv;
-
-	ret_femv.bool_value = (this->bool_value && x.bool_value);
+	ret_femv.bool_value = (getEBV() && x.getEBV());
 
 	ret_femv.deduceTermValue();
 	return ret_femv;
diff --git a/Util/EvalMultitypeValue.h b/Util/EvalMultitypeValue.h
index 2fa34a4..b382042 100644
--- a/Util/EvalMultitypeValue.h
+++ b/Util/EvalMultitypeValue.h
@@ -79,6 +79,7 @@ class EvalMultitypeValue
 		long long long_value;
 		DateTime dt_value;
 
+		EffectiveBooleanValue getEBV();	// The value as an operand of logical operators and FILTER
 		bool isSimpleLiteral();
 		void convert2Type(EvalMultitypeValue::DataType to_type);
 		void getSameNumericType (EvalMultitypeValue &x);
-- 
2.43.0


From f4f5061c6e05f39f45943ae1ab08e48fb6d5b9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 034/107] fix: expressions in error were bound to false, and
 values of functions could be lost or respelled

---
 Query/GeneralEvaluation.cpp | 4 ++--
 Util/EvalMultitypeValue.cpp | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 19b0a2e..318f0e5 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -2658,12 +2658,12 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 							for (int j = begin; j <= end; j++) {
 								new_result0.result[j].str[proj2new[i] - new_result0_id_cols] = \
 									result0.doComp(proj[i].comp_tree_root, result0.result[j], result0_id_cols, kvstore, \
-									result0Varset).term_value;
+									result0Varset).getRep();
 							}
 						} else {
 							new_result0.result.back().str[proj2new[i] - new_result0_id_cols] = \
 								result0.doComp(proj[i].comp_tree_root, result0.result[begin], result0_id_cols, kvstore, \
-								result0Varset).term_value;
+								result0Varset).getRep();
 						}
 					}
 					else if (proj[i].aggregate_type == ProjectionVar::Contains_type)
diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index 6fde154..6050679 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -1144,6 +1144,10 @@ string EvalMultitypeValue::getStrContent()
 string EvalMultitypeValue::getRep()
 {
 	string ret;
+	if (datatype == EvalMultitypeValue::xsd_boolean && bool_value.getValue() == 2)
+		return ret;	// An error has no value
+	if (!term_value.empty())
+		return term_value;
 	if (datatype == EvalMultitypeValue::rdf_term || datatype == EvalMultitypeValue::iri)
 		ret = term_value;
 	else if (datatype == EvalMultitypeValue::xsd_string || datatype == EvalMultitypeValue::literal)
@@ -1158,7 +1162,7 @@ string EvalMultitypeValue::getRep()
 	else if (datatype == EvalMultitypeValue::xsd_integer)
 		ret = "\"" + to_string(int_value) + "\"^^<http://www.w3.org/2001/XMLSchema#integer>";
 	else if (datatype == EvalMultitypeValue::xsd_long)
-		ret = "\"" + to_string(int_value) + "\"^^<http://www.w3.org/2001/XMLSchema#long>";
+		ret = "\"" + to_string(long_value) + "\"^^<http://www.w3.org/2001/XMLSchema#long>";
 	else if (datatype == EvalMultitypeValue::xsd_decimal)
 		ret = "\"" + to_string(flt_value) + "\"^^<http://www.w3.org/2001/XMLSchema#decimal>";
 	else if (datatype == EvalMultitypeValue::xsd_float)
-- 
2.43.0


From 5e757d59a223dbda7d2739dda23f2ea33f02b79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 035/107] fix: expressions over malformed numbers, dates
 without time, mixed numeric types and division by zero crashed, threw or
 erred

---
 Util/EvalMultitypeValue.cpp | 51 ++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index 6050679..15bf3ad 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -213,10 +213,10 @@ void EvalMultitypeValue::convert2Type(EvalMultitypeValue::DataType to_type)
 		this->long_value = this->int_value;
 	else if (this->datatype == xsd_integer && to_type == xsd_double)
 		this->dbl_value = this->int_value;
+	else if (this->datatype == xsd_decimal && to_type == xsd_float)
+		;
 	else if (this->datatype == xsd_decimal && to_type == xsd_double)
 		this->dbl_value = this->flt_value;
-	else if (this->datatype == xsd_decimal && to_type == xsd_long)
-		this->long_value = this->flt_value;
 	else if (this->datatype == xsd_long && to_type == xsd_double)
 		this->dbl_value = this->long_value;
 	else if (this->datatype == xsd_float && to_type == xsd_double)
@@ -229,6 +229,8 @@ void EvalMultitypeValue::convert2Type(EvalMultitypeValue::DataType to_type)
 void EvalMultitypeValue::getSameNumericType (EvalMultitypeValue &x)
 {
 	DataType to_type = max(this->datatype, x.datatype);
+	if (to_type == xsd_long && min(this->datatype, x.datatype) != xsd_integer && this->datatype != x.datatype)
+		to_type = xsd_double;
 	if (this->datatype != to_type)
 		this->convert2Type(to_type);
 	if (x.datatype != to_type)
@@ -931,11 +933,14 @@ EvalMultitypeValue
 	this->getSameNumericType(x);
 	if (datatype == xsd_integer)
 	{
-		ret_femv.datatype = xsd_integer;
-		ret_femv.int_value = int_value / x.int_value;
+		// The quotient of two integers is a decimal
+		this->convert2Type(xsd_decimal);
+		x.convert2Type(xsd_decimal);
 	}
-	else if (datatype == xsd_decimal)
+	if (datatype == xsd_decimal)
 	{
+		if (x.flt_value == 0)
+			return ret_femv;
 		ret_femv.datatype = xsd_decimal;
 		ret_femv.flt_value = flt_value / x.flt_value;
 	}
@@ -1069,24 +1074,30 @@ void EvalMultitypeValue::deduceTypeValue()
 					if (p >= contentLen && i < 5)
 						return;
 				}
+				date.resize(6);	// A date has no time
 				dt_value = EvalMultitypeValue::DateTime(date);
 			} else {
 				contentStr = contentStr.substr(1, contentLen - 2);
-				if (sufStr == "integer") {
-					datatype = EvalMultitypeValue::xsd_integer;
-					int_value = stoi(contentStr);
-				} else if (sufStr == "long") {
-					datatype = EvalMultitypeValue::xsd_long;
-					long_value = stoll(contentStr);
-				} else if (sufStr == "decimal") {
-					datatype = EvalMultitypeValue::xsd_decimal;
-					flt_value = stof(contentStr);
-				} else if (sufStr == "float") {
-					datatype = EvalMultitypeValue::xsd_float;
-					flt_value = stof(contentStr);
-				} else if (sufStr == "double") {
-					datatype = EvalMultitypeValue::xsd_double;
-					dbl_value = stod(contentStr);
+				// A literal that is not in the space of its datatype is a term without a value
+				datatype = EvalMultitypeValue::rdf_term;
+				try {
+					if (sufStr == "integer") {
+						int_value = stoi(contentStr);
+						datatype = EvalMultitypeValue::xsd_integer;
+					} else if (sufStr == "long") {
+						long_value = stoll(contentStr);
+						datatype = EvalMultitypeValue::xsd_long;
+					} else if (sufStr == "decimal") {
+						flt_value = stof(contentStr);
+						datatype = EvalMultitypeValue::xsd_decimal;
+					} else if (sufStr == "float") {
+						flt_value = stof(contentStr);
+						datatype = EvalMultitypeValue::xsd_float;
+					} else if (sufStr == "double") {
+						dbl_value = stod(contentStr);
+						datatype = EvalMultitypeValue::xsd_double;
+					}
+				} catch (const std::logic_error &) {
 				}
 			}
 		}
-- 
2.43.0


From de5e20a67db4ee26de1e0d3efce2761f9150560a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 036/107] fix: STR, LANG, DATATYPE, LANGMATCHES, UCASE, LCASE
 and ISLITERAL mistook typed, tagged and @-containing literals

---
 Query/TempResult.cpp        | 72 +++++++++++++++++++------------------
 Util/EvalMultitypeValue.cpp |  6 ++--
 2 files changed, 40 insertions(+), 38 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 7d6fca0..01f7a5f 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -869,8 +869,12 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		else if (x.datatype == EvalMultitypeValue::xsd_string)
 			ret_femv.str_value = x.str_value;
 		else {
-			x.deduceTermValue();
-			ret_femv.str_value = x.term_value;
+			// The lexical form
+			string rep = x.getRep();
+			size_t end = rep.rfind('"');
+			if (end == string::npos)
+				return ret_femv;
+			ret_femv.str_value = rep.substr(0, end + 1);
 		}
 		ret_femv.datatype = EvalMultitypeValue::literal;
 		return ret_femv;
@@ -880,7 +884,8 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		EvalMultitypeValue x;
 
 		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
-		ret_femv.bool_value = (x.datatype == EvalMultitypeValue::iri);
+		if (!x.getRep().empty())
+			ret_femv.bool_value = (x.datatype == EvalMultitypeValue::iri);
 
 		return ret_femv;
 	}
@@ -889,14 +894,9 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		EvalMultitypeValue x;
 
 		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
-		ret_femv.bool_value = (x.datatype == EvalMultitypeValue::literal ||
-							   x.datatype == EvalMultitypeValue::xsd_string ||
-							   x.datatype == EvalMultitypeValue::xsd_boolean ||
-							   x.datatype == EvalMultitypeValue::xsd_integer ||
-							   x.datatype == EvalMultitypeValue::xsd_decimal ||
-							   x.datatype == EvalMultitypeValue::xsd_float ||
-							   x.datatype == EvalMultitypeValue::xsd_double ||
-							   x.datatype == EvalMultitypeValue::xsd_datetime);
+		string rep = x.getRep();
+		if (!rep.empty())
+			ret_femv.bool_value = (rep[0] == '"');
 
 		return ret_femv;
 	}
@@ -905,9 +905,11 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		EvalMultitypeValue x;
 
 		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
-		ret_femv.bool_value = (x.datatype == EvalMultitypeValue::xsd_integer ||
+		if (!x.getRep().empty())
+			ret_femv.bool_value = (x.datatype == EvalMultitypeValue::xsd_integer ||
 							   x.datatype == EvalMultitypeValue::xsd_decimal ||
 							   x.datatype == EvalMultitypeValue::xsd_float ||
+							   x.datatype == EvalMultitypeValue::xsd_long ||
 							   x.datatype == EvalMultitypeValue::xsd_double);
 
 		return ret_femv;
@@ -917,18 +919,15 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		EvalMultitypeValue x;
 
 		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
-		if (x.datatype == EvalMultitypeValue::literal)
+		string rep = x.getRep();
+		if (!rep.empty() && rep[0] == '"')
 		{
 			ret_femv.datatype = EvalMultitypeValue::literal;
-			int p = x.str_value.rfind('@');
-			if (p != -1)
-				ret_femv.str_value = "\"" + x.str_value.substr(p + 1) + "\"";
-			else
-				ret_femv.str_value = "";
-			return ret_femv;
+			ret_femv.str_value = x.getLangTag();
+			if (ret_femv.str_value.empty())
+				ret_femv.str_value = "\"\"";
 		}
-		else
-			return ret_femv;
+		return ret_femv;
 	}
 	else if (root.oprt == "DATATYPE")
 	{
@@ -937,18 +936,17 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
 		if (x.datatype == EvalMultitypeValue::rdf_term)
 		{
-			size_t p = x.str_value.rfind("^^");
+			size_t p = x.term_value.rfind("^^");
 			if (p != string::npos)
 			{
 				ret_femv.datatype = EvalMultitypeValue::iri;
-				ret_femv.term_value = x.str_value.substr(p + 2);
+				ret_femv.term_value = x.term_value.substr(p + 2);
 			}
 		}
 		else if (x.datatype == EvalMultitypeValue::literal)
 		{
 			ret_femv.datatype = EvalMultitypeValue::iri;
-			size_t p = x.str_value.rfind('@');
-			if (p != string::npos)
+			if (!x.getLangTag().empty())
 				ret_femv.term_value = "<http://www.w3.org/1999/02/22-rdf-syntax-ns#langString>";
 			else
 				ret_femv.term_value = "<http://www.w3.org/2001/XMLSchema#string>";
@@ -958,7 +956,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 			ret_femv.datatype = EvalMultitypeValue::iri;
 			ret_femv.term_value = "<http://www.w3.org/2001/XMLSchema#string>";
 		}
-		else if (x.datatype == EvalMultitypeValue::xsd_boolean)
+		else if (x.datatype == EvalMultitypeValue::xsd_boolean && x.bool_value.getValue() != 2)
 		{
 			ret_femv.datatype = EvalMultitypeValue::iri;
 			ret_femv.term_value = "<http://www.w3.org/2001/XMLSchema#boolean>";
@@ -988,6 +986,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 			ret_femv.datatype = EvalMultitypeValue::iri;
 			ret_femv.term_value = "<http://www.w3.org/2001/XMLSchema#dateTime>";
 		}
+		ret_femv.str_value = ret_femv.term_value;
 
 		return ret_femv;
 	}
@@ -1075,14 +1074,10 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		else if (x.datatype == EvalMultitypeValue::literal)
 		{
 			ret_femv.datatype = EvalMultitypeValue::literal;
-			int p = x.str_value.rfind('@');
-			if (p != -1)
-			{
-				ret_femv.str_value = x.str_value.substr(0, p);	// ADD lang tag!
-				langTag = x.str_value.substr(p + 1);
-			}
-			else
-				ret_femv.str_value = x.str_value;
+			size_t p = x.str_value.rfind('"') + 1;
+			ret_femv.str_value = x.str_value.substr(0, p);
+			if (p < x.str_value.size() && x.str_value[p] == '@')
+				langTag = x.str_value.substr(p + 1);	// ADD lang tag!
 		}
 
 		if (root.oprt == "UCASE")
@@ -1153,7 +1148,14 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		if (!y.isSimpleLiteral())
 			return ret_femv;
 
-		ret_femv.bool_value = ((x.str_value == y.str_value) || (x.str_value.length() > 0 && y.str_value == "\"*\""));
+		// Basic matching: the range is the tag, or a prefix of it that ends before a '-'
+		string tag = x.getStrContent(), range = y.getStrContent();
+		transform(tag.begin(), tag.end(), tag.begin(), ::tolower);
+		transform(range.begin(), range.end(), range.begin(), ::tolower);
+		if (range == "*")
+			ret_femv.bool_value = !tag.empty();
+		else
+			ret_femv.bool_value = (tag == range || tag.compare(0, range.size() + 1, range + "-") == 0);
 
 		return ret_femv;
 	}
diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index 15bf3ad..0c4c6a4 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -402,7 +402,7 @@ EvalMultitypeValue
 		return ret_femv;
 	}
 
-	if (this->isSimpleLiteral() && x.isSimpleLiteral())
+	if (this->datatype == literal && x.datatype == literal)
 	{
 		ret_femv.bool_value = (this->str_value != x.str_value);
 
@@ -1108,8 +1108,8 @@ string EvalMultitypeValue::getLangTag()
 {
 	if (datatype == EvalMultitypeValue::literal)
 	{
-		int p = str_value.rfind('@');
-		if (p != -1)
+		size_t p = str_value.rfind('"') + 1;
+		if (p < str_value.size() && str_value[p] == '@')
 			return "\"" + str_value.substr(p + 1) + "\"";
 		else
 			return "";
-- 
2.43.0


From abd91a88db5bcc5e7e38c891b3a5f6efd8cc6efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 037/107] fix: arithmetic operators of one level associated to
 the right

---
 Parser/QueryParser.cpp | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index 7afa1e4..8bb8af5 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -652,8 +652,8 @@ void QueryParser::parseSelectAggregateFunction(SPARQLParser::ExpressionContext *
 	relations in an expression), in SELECT/FILTER/ORDER BY.
 
 	@param root pointer to the expression or var's context.
-	@param oper_pos the starting position to look at for the current node, 
-	used to branch out the right child node.
+	@param oper_pos the position of the operator of the current node, used to branch out
+	the left child node; -1 for the last one.
 	@param curr_node pointer to the current CompTree node.
 */
 void QueryParser::buildCompTree(antlr4::tree::ParseTree *root, int oper_pos, CompTreeNode &curr_node)
@@ -752,23 +752,17 @@ void QueryParser::buildCompTree(antlr4::tree::ParseTree *root, int oper_pos, Com
 		}
 		else
 		{
-			int rightmostOprtPos = root->children.size() - 2;
-			if (oper_pos < rightmostOprtPos)
-			{
-				// int new_oper_pos = oper_pos + 2;
-				curr_node.oprt = root->children[oper_pos + 2]->getText();
-				curr_node.val = "";
-				// curr_node.lchild = new CompTreeNode;
-				// curr_node.rchild = new CompTreeNode;
-				// buildCompTree(root->children[oper_pos + 1], -1, curr_node.lchild);
-				// buildCompTree(root, oper_pos + 2, curr_node.rchild);
-				curr_node.children.push_back(CompTreeNode());
-				curr_node.children.push_back(CompTreeNode());
-				buildCompTree(root->children[oper_pos + 1], -1, curr_node.children[0]);
-				buildCompTree(root, oper_pos + 2, curr_node.children[1]);
-			}
-			else 	// oper_pos == rightmostOprtPos, the last operator on this level has been handled
-				buildCompTree(root->children[oper_pos + 1], -1, curr_node);
+			// Operators of one level associate to the left: the last one is applied last
+			int pos = (oper_pos == -1) ? (int)root->children.size() - 2 : oper_pos;
+			curr_node.oprt = root->children[pos]->getText();
+			curr_node.val = "";
+			curr_node.children.push_back(CompTreeNode());
+			curr_node.children.push_back(CompTreeNode());
+			if (pos == 1)
+				buildCompTree(root->children[0], -1, curr_node.children[0]);
+			else
+				buildCompTree(root, pos - 2, curr_node.children[0]);
+			buildCompTree(root->children[pos + 1], -1, curr_node.children[1]);
 		}
 	}
 	else 	// >= 3, even #children, must be NOT IN or function call
-- 
2.43.0


From 6f11f1d66909fd050913e93bedff101561197c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 038/107] fix: a float or double out of range ended the loading
 of a file

---
 Parser/RDFParser.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/Parser/RDFParser.cpp b/Parser/RDFParser.cpp
index 12071e5..7480648 100644
--- a/Parser/RDFParser.cpp
+++ b/Parser/RDFParser.cpp
@@ -159,6 +159,17 @@ int RDFParser::parseFile(TripleWithObjType* _triple_array, int& _triple_num, str
 							<< "> <" << rawObject << ">): " << errorMsg << endl;
 					continue;
 				}
+				catch (out_of_range& e)
+				{
+					errorMsg = "Object double out of range";
+					if (ofile)
+						ofile << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
+							<< "> <" << rawObject << ">): " << errorMsg;
+					else
+						cout << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
+							<< "> <" << rawObject << ">): " << errorMsg << endl;
+					continue;
+				}
 				if (rawObject.length() == 3 && toupper(rawObject[0]) == 'N' && toupper(rawObject[1]) == 'A'
 					&& toupper(rawObject[2]) == 'N')
 				{
@@ -346,6 +357,17 @@ int RDFParser::parseFile(TripleWithObjType* _triple_array, int& _triple_num, str
 								<< "> <" << rawObject << ">): " << errorMsg << endl;
 						continue;
 					}
+					catch (out_of_range& e)
+					{
+						errorMsg = "Object float out of range";
+						if (ofile)
+							ofile << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
+								<< "> <" << rawObject << ">): " << errorMsg;
+						else
+							cout << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
+								<< "> <" << rawObject << ">): " << errorMsg << endl;
+						continue;
+					}
 					if (rawObject.length() == 3 && toupper(rawObject[0]) == 'N' && toupper(rawObject[1]) == 'A'
 						&& toupper(rawObject[2]) == 'N')
 					{
-- 
2.43.0


From 8eec0b9c10a3bce6b99de0ff607668b7d668515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 039/107] fix: results of type xsd:string lost their datatype

---
 Util/EvalMultitypeValue.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index 0c4c6a4..2f67411 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -1004,7 +1004,9 @@ void EvalMultitypeValue::deduceTermValue()
 			ss << '0';
 		ss << dt_value.date[5] << "\"^^<http://www.w3.org/2001/XMLSchema#dateTime>";
 		ss >> term_value;
-	} else
+	} else if (datatype == xsd_string)
+		term_value = str_value + "^^<http://www.w3.org/2001/XMLSchema#string>";
+	else
 		term_value = str_value;
 }
 
@@ -1161,7 +1163,9 @@ string EvalMultitypeValue::getRep()
 		return term_value;
 	if (datatype == EvalMultitypeValue::rdf_term || datatype == EvalMultitypeValue::iri)
 		ret = term_value;
-	else if (datatype == EvalMultitypeValue::xsd_string || datatype == EvalMultitypeValue::literal)
+	else if (datatype == EvalMultitypeValue::xsd_string)
+		ret = str_value + "^^<http://www.w3.org/2001/XMLSchema#string>";
+	else if (datatype == EvalMultitypeValue::literal)
 		ret = str_value;
 	else if (datatype == EvalMultitypeValue::xsd_boolean)
 	{
-- 
2.43.0


From beb65b3db9130ea394cd689ae151a15e7d870a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 040/107] fix: REGEX without flags used uninitialised ones

---
 Query/RegexExpression.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Query/RegexExpression.h b/Query/RegexExpression.h
index 831d746..3172e6f 100644
--- a/Query/RegexExpression.h
+++ b/Query/RegexExpression.h
@@ -19,10 +19,10 @@ class RegexExpression
 	public:
 		bool compile(std::string &pRegexStr, std::string &flag)
 		{
-			regex::flag_type flags;
+			regex::flag_type flags = regex::ECMAScript;
 			for (int i = 0; i < (int)flag.length(); i++)
 				if (flag[i] == 'i')
-					flags = regex::icase;
+					flags = regex::ECMAScript | regex::icase;
 
 			try {
 				pattern.assign(pRegexStr, flags);
-- 
2.43.0


From cb3ef4047a5d762a0ed4a95fc5eb597e3d93a01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 041/107] fix: prefixed names were not expanded in expressions
 nor as datatypes of literals

---
 Parser/QueryParser.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index 8bb8af5..65126a2 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -702,6 +702,7 @@ void QueryParser::buildCompTree(antlr4::tree::ParseTree *root, int oper_pos, Com
 				// curr_node.lchild = NULL;
 				// curr_node.rchild = NULL;
 				curr_node.val = root->getText();
+				replacePrefix(curr_node.val);
 			}
 		}
 	}
@@ -1368,6 +1369,18 @@ antlrcpp::Any QueryParser::visitOrderClause(SPARQLParser::OrderClauseContext *ct
 */
 void QueryParser::replacePrefix(string &str)
 {
+	if (str[0] == '\"')
+	{
+		// the datatype of a literal may be a prefixed name
+		size_t pos = str.rfind("\"^^");
+		if (pos != string::npos && pos + 3 < str.length() && str[pos + 3] != '<')
+		{
+			string datatype = str.substr(pos + 3);
+			replacePrefix(datatype);
+			str = str.substr(0, pos + 3) + datatype;
+		}
+		return;
+	}
 	if (str[0] != '<' && str[0] != '\"' && str[0] != '?')
 	{
 		int sep = str.find(":");
-- 
2.43.0


From 41d843e31ab01cd1e16d7c0e9ec5c695191795f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 042/107] fix: expressions looked predicate variables up in the
 dictionary of entities

---
 Query/GeneralEvaluation.cpp |  8 ++--
 Query/TempResult.cpp        | 75 +++++++++++++++++++------------------
 Query/TempResult.h          |  2 +-
 3 files changed, 44 insertions(+), 41 deletions(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 318f0e5..02ad24e 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -2362,7 +2362,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 								for (int j = begin; j <= end; j++)
 								{
 									tmp = result0.doComp(proj[i].comp_tree_root, result0.result[j], result0_id_cols, kvstore, \
-										result0Varset);
+										result0Varset, query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset);
 									if (tmp.datatype == EvalMultitypeValue::xsd_boolean && \
 										tmp.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::error_value)
 										continue;
@@ -2488,7 +2488,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 								for (int j = begin; j <= end; j++)
 								{
 									tmp = result0.doComp(proj[i].comp_tree_root, result0.result[j], result0_id_cols, kvstore, \
-										result0Varset);
+										result0Varset, query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset);
 									if (tmp.datatype == EvalMultitypeValue::xsd_boolean && \
 										tmp.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::error_value)
 										continue;
@@ -2658,12 +2658,12 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 							for (int j = begin; j <= end; j++) {
 								new_result0.result[j].str[proj2new[i] - new_result0_id_cols] = \
 									result0.doComp(proj[i].comp_tree_root, result0.result[j], result0_id_cols, kvstore, \
-									result0Varset).getRep();
+									result0Varset, query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset).getRep();
 							}
 						} else {
 							new_result0.result.back().str[proj2new[i] - new_result0_id_cols] = \
 								result0.doComp(proj[i].comp_tree_root, result0.result[begin], result0_id_cols, kvstore, \
-								result0Varset).getRep();
+								result0Varset, query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset).getRep();
 						}
 					}
 					else if (proj[i].aggregate_type == ProjectionVar::Contains_type)
diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 01f7a5f..a6a20bb 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -698,7 +698,7 @@ void TempResult::doMinus(TempResult &x, TempResult &r)
 }
 
 EvalMultitypeValue
-TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVstore *kvstore, Varset &this_varset)
+TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVstore *kvstore, Varset &this_varset, Varset &entity_literal_varset)
 {
 	// Arithmetic and logical operations
 	// if (root->lchild == NULL && root->rchild == NULL)	// leaf node
@@ -719,7 +719,10 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 			if (pos < id_cols)
 			{
 				int id = row.id[pos];
-                x.term_value = kvstore->getStringByID(id);
+				if (entity_literal_varset.findVar(root.val))
+					x.term_value = kvstore->getStringByID(id);
+				else
+					x.term_value = kvstore->getPredicateByID(id);
 			}
 			else
 				x.term_value = row.str[pos - id_cols];
@@ -742,7 +745,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 	else if (root.children.size() == 1 && \
 		(root.oprt == "+" || root.oprt == "-" || root.oprt == "!"))	// unary operator
 	{
-		EvalMultitypeValue lRes = doComp(root.children[0], row, id_cols, kvstore, this_varset);
+		EvalMultitypeValue lRes = doComp(root.children[0], row, id_cols, kvstore, this_varset, entity_literal_varset);
 		if (root.oprt == "+")
 			return lRes;
 		else if (root.oprt == "-")
@@ -757,10 +760,10 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		|| root.oprt == "-" || root.oprt == "*" || root.oprt == "/"))	// binary operator
 	{
 		EvalMultitypeValue lRes, rRes;
-		lRes = doComp(root.children[0], row, id_cols, kvstore, this_varset);
+		lRes = doComp(root.children[0], row, id_cols, kvstore, this_varset, entity_literal_varset);
 		if ((root.oprt == "||" && lRes.getEBV().getValue() == 1) || (root.oprt == "&&" && lRes.getEBV().getValue() == 0))
 			return lRes || lRes;
-		rRes = doComp(root.children[1], row, id_cols, kvstore, this_varset);
+		rRes = doComp(root.children[1], row, id_cols, kvstore, this_varset, entity_literal_varset);
 
 		if (root.oprt == "||")
 			return lRes || rRes;
@@ -798,7 +801,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		EvalMultitypeValue x, y, z;
 		string t, p, f;
 
-		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
+		x = doComp(root.children[0], row, id_cols, kvstore, this_varset, entity_literal_varset);
 		if (x.datatype == EvalMultitypeValue::literal || x.datatype == EvalMultitypeValue::xsd_string)
 		{
 			t = x.str_value;
@@ -806,7 +809,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		}
 		else
 			return ret_femv;
-		y = doComp(root.children[1], row, id_cols, kvstore, this_varset);
+		y = doComp(root.children[1], row, id_cols, kvstore, this_varset, entity_literal_varset);
 		if (y.isSimpleLiteral())
 		{
 			p = y.str_value;
@@ -816,7 +819,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 			return ret_femv;
 		if (root.children.size() >= 3)
 		{
-			z = doComp(root.children[2], row, id_cols, kvstore, this_varset);
+			z = doComp(root.children[2], row, id_cols, kvstore, this_varset, entity_literal_varset);
 			if (z.isSimpleLiteral())
 			{
 				f = z.str_value;
@@ -838,7 +841,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		EvalMultitypeValue x;
 		ret_femv.str_value = "";
 		for (size_t i = 0; i < numChild; i++) {
-			x = doComp(root.children[i], row, id_cols, kvstore, this_varset);
+			x = doComp(root.children[i], row, id_cols, kvstore, this_varset, entity_literal_varset);
 			if (x.datatype == EvalMultitypeValue::literal 
 			|| x.datatype == EvalMultitypeValue::xsd_string) {
 				size_t bIdx = x.str_value.find('\"'), eIdx = x.str_value.rfind('\"');
@@ -861,7 +864,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 	{
 		EvalMultitypeValue x;
 
-		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
+		x = doComp(root.children[0], row, id_cols, kvstore, this_varset, entity_literal_varset);
 		if (x.datatype == EvalMultitypeValue::literal)
 			ret_femv.str_value = x.str_value.substr(0, x.str_value.rfind('"') + 1);
 		else if (x.datatype == EvalMultitypeValue::iri)
@@ -883,7 +886,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 	{
 		EvalMultitypeValue x;
 
-		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
+		x = doComp(root.children[0], row, id_cols, kvstore, this_varset, entity_literal_varset);
 		if (!x.getRep().empty())
 			ret_femv.bool_value = (x.datatype == EvalMultitypeValue::iri);
 
@@ -893,7 +896,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 	{
 		EvalMultitypeValue x;
 
-		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
+		x = doComp(root.children[0], row, id_cols, kvstore, this_varset, entity_literal_varset);
 		string rep = x.getRep();
 		if (!rep.empty())
 			ret_femv.bool_value = (rep[0] == '"');
@@ -904,7 +907,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 	{
 		EvalMultitypeValue x;
 
-		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
+		x = doComp(root.children[0], row, id_cols, kvstore, this_varset, entity_literal_varset);
 		if (!x.getRep().empty())
 			ret_femv.bool_value = (x.datatype == EvalMultitypeValue::xsd_integer ||
 							   x.datatype == EvalMultitypeValue::xsd_decimal ||
@@ -918,7 +921,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 	{
 		EvalMultitypeValue x;
 
-		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
+		x = doComp(root.children[0], row, id_cols, kvstore, this_varset, entity_literal_varset);
 		string rep = x.getRep();
 		if (!rep.empty() && rep[0] == '"')
 		{
@@ -933,7 +936,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 	{
 		EvalMultitypeValue x;
 
-		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
+		x = doComp(root.children[0], row, id_cols, kvstore, this_varset, entity_literal_varset);
 		if (x.datatype == EvalMultitypeValue::rdf_term)
 		{
 			size_t p = x.term_value.rfind("^^");
@@ -994,7 +997,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 	{
 		EvalMultitypeValue x;
 
-		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
+		x = doComp(root.children[0], row, id_cols, kvstore, this_varset, entity_literal_varset);
 		if (x.datatype == EvalMultitypeValue::xsd_datetime)
 		{
 			ret_femv.datatype = EvalMultitypeValue::xsd_integer;
@@ -1008,7 +1011,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 	{
 		EvalMultitypeValue x;
 
-		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
+		x = doComp(root.children[0], row, id_cols, kvstore, this_varset, entity_literal_varset);
 		if (x.datatype == EvalMultitypeValue::xsd_datetime)
 		{
 			ret_femv.datatype = EvalMultitypeValue::xsd_integer;
@@ -1022,7 +1025,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 	{
 		EvalMultitypeValue x;
 
-		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
+		x = doComp(root.children[0], row, id_cols, kvstore, this_varset, entity_literal_varset);
 		if (x.datatype == EvalMultitypeValue::xsd_datetime)
 		{
 			ret_femv.datatype = EvalMultitypeValue::xsd_integer;
@@ -1036,7 +1039,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 	{
 		EvalMultitypeValue x;
 
-		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
+		x = doComp(root.children[0], row, id_cols, kvstore, this_varset, entity_literal_varset);
 		if (x.datatype == EvalMultitypeValue::xsd_datetime)
 		{
 			ret_femv.datatype = EvalMultitypeValue::xsd_integer;
@@ -1050,7 +1053,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 	{
 		EvalMultitypeValue x;
 
-		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
+		x = doComp(root.children[0], row, id_cols, kvstore, this_varset, entity_literal_varset);
 		if (x.datatype == EvalMultitypeValue::xsd_datetime)
 		{
 			ret_femv.datatype = EvalMultitypeValue::xsd_integer;
@@ -1064,7 +1067,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 	{
 		EvalMultitypeValue x;
 
-		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
+		x = doComp(root.children[0], row, id_cols, kvstore, this_varset, entity_literal_varset);
 		string langTag = "";
 		if (x.datatype == EvalMultitypeValue::xsd_string)
 		{
@@ -1095,8 +1098,8 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 	{
 		EvalMultitypeValue x, y;
 
-		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
-		y = doComp(root.children[1], row, id_cols, kvstore, this_varset);
+		x = doComp(root.children[0], row, id_cols, kvstore, this_varset, entity_literal_varset);
+		y = doComp(root.children[1], row, id_cols, kvstore, this_varset, entity_literal_varset);
 		if(x.argCompatible(y))
 		{
 			string x_content = x.getStrContent(), y_content = y.getStrContent();
@@ -1113,7 +1116,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 	{
 		EvalMultitypeValue x;
 
-		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
+		x = doComp(root.children[0], row, id_cols, kvstore, this_varset, entity_literal_varset);
 		if (x.datatype == EvalMultitypeValue::xsd_integer)
 		{
 			ret_femv.datatype = EvalMultitypeValue::xsd_integer;
@@ -1141,10 +1144,10 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 	{
 		EvalMultitypeValue x, y;
 
-		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
+		x = doComp(root.children[0], row, id_cols, kvstore, this_varset, entity_literal_varset);
 		if (!x.isSimpleLiteral())
 			return ret_femv;
-		y = doComp(root.children[1], row, id_cols, kvstore, this_varset);
+		y = doComp(root.children[1], row, id_cols, kvstore, this_varset, entity_literal_varset);
 		if (!y.isSimpleLiteral())
 			return ret_femv;
 
@@ -1162,7 +1165,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 	else if (root.oprt == "BOUND")
 	{
 		EvalMultitypeValue x;
-		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
+		x = doComp(root.children[0], row, id_cols, kvstore, this_varset, entity_literal_varset);
 		// Only return false when x is xsd_boolean and has error_value
 		if (x.datatype == EvalMultitypeValue::xsd_boolean && x.bool_value.getValue() == 2)
 			ret_femv.bool_value = EvalMultitypeValue::EffectiveBooleanValue::false_value;
@@ -1175,12 +1178,12 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 	{
 		EvalMultitypeValue x;
 
-		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
+		x = doComp(root.children[0], row, id_cols, kvstore, this_varset, entity_literal_varset);
 		ret_femv.bool_value.value = EvalMultitypeValue::EffectiveBooleanValue::false_value;
 		for (int i = 1; i < (int)root.children.size(); i++)
 		{
 			EvalMultitypeValue y;
-			y = doComp(root.children[i], row, id_cols, kvstore, this_varset);
+			y = doComp(root.children[i], row, id_cols, kvstore, this_varset, entity_literal_varset);
 			EvalMultitypeValue equal = (x == y);
 			if (i == 1)
 				ret_femv = equal;
@@ -1197,12 +1200,12 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 	{
 		EvalMultitypeValue x;
 
-		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
+		x = doComp(root.children[0], row, id_cols, kvstore, this_varset, entity_literal_varset);
 		ret_femv.bool_value.value = EvalMultitypeValue::EffectiveBooleanValue::true_value;
 		for (int i = 1; i < (int)root.children.size(); i++)
 		{
 			EvalMultitypeValue y;
-			y = doComp(root.children[i], row, id_cols, kvstore, this_varset);
+			y = doComp(root.children[i], row, id_cols, kvstore, this_varset, entity_literal_varset);
 			EvalMultitypeValue inequal = (x != y);
 			if (i == 1)
 				ret_femv = inequal;
@@ -1219,13 +1222,13 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 	{
 		EvalMultitypeValue x, y, z;
 
-		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
+		x = doComp(root.children[0], row, id_cols, kvstore, this_varset, entity_literal_varset);
 		if (x.getEBV().getValue() == 2)
 			return ret_femv;
 		if (x.getEBV().getValue() == 1)
-			ret_femv = doComp(root.children[1], row, id_cols, kvstore, this_varset);
+			ret_femv = doComp(root.children[1], row, id_cols, kvstore, this_varset, entity_literal_varset);
 		else
-			ret_femv = doComp(root.children[2], row, id_cols, kvstore, this_varset);
+			ret_femv = doComp(root.children[2], row, id_cols, kvstore, this_varset, entity_literal_varset);
 		
 		return ret_femv;
 	}
@@ -1241,7 +1244,7 @@ void TempResult::doFilter(const CompTreeNode &filter, KVstore *kvstore, Varset &
     int this_id_cols = this->id_varset.getVarsetSize();
 
     for (unsigned i = 0; save_num < limit_number && i < original_size-delete_num;) {
-        EvalMultitypeValue ret_femv = doComp(filter, this->result[i], this_id_cols, kvstore, this_varset);
+        EvalMultitypeValue ret_femv = doComp(filter, this->result[i], this_id_cols, kvstore, this_varset, entity_literal_varset);
         if (ret_femv.getEBV().getValue() == 1) {
             ++i;
             ++save_num;
@@ -1261,7 +1264,7 @@ void TempResult::doBind(const GroupPattern::Bind &bind, KVstore *kvstore, Varset
 	this->str_varset.addVar(bind.var);
 	for (int i = 0; i < (int)this->result.size(); i++)
 	{
-		EvalMultitypeValue ret_femv = doComp(bind.bindExpr, this->result[i], this_id_cols, kvstore, this_varset);
+		EvalMultitypeValue ret_femv = doComp(bind.bindExpr, this->result[i], this_id_cols, kvstore, this_varset, entity_literal_varset);
 		this->result[i].str.push_back(ret_femv.getRep());
 	}
 	return;
diff --git a/Query/TempResult.h b/Query/TempResult.h
index be28ccc..a3644bb 100644
--- a/Query/TempResult.h
+++ b/Query/TempResult.h
@@ -57,7 +57,7 @@ class TempResult
         void doFilter(const CompTreeNode &filter, KVstore *kvstore, Varset &entity_literal_varset, unsigned limit_num = std::numeric_limits<unsigned>::max());
 		void doBind(const GroupPattern::Bind &bind, KVstore *kvstore, Varset &entity_literal_varset);
 
-		EvalMultitypeValue doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVstore *kvstore, Varset &this_varset);
+		EvalMultitypeValue doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVstore *kvstore, Varset &this_varset, Varset &entity_literal_varset);
 
 		void print(int no=-1);
 	private:
-- 
2.43.0


From 51029c618360a35a528a23d879c27d7546a090d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:25 +0000
Subject: [PATCH 043/107] fix: BIND inside nested groups was evaluated before
 the OPTIONALs preceding it

---
 Query/QueryTree.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Query/QueryTree.cpp b/Query/QueryTree.cpp
index e1e5bb7..702dc79 100644
--- a/Query/QueryTree.cpp
+++ b/Query/QueryTree.cpp
@@ -356,10 +356,8 @@ pair<Varset, Varset> GroupPattern::checkNoMinusAndOptionalVarAndSafeFilter(Varse
 		}
 		else if (this->sub_group_pattern[i].type == SubGroupPattern::Bind_type)
 		{
-			if (this->sub_group_pattern[i].bind.varset.hasCommonVar(ban_varset))
-				check_condition = false;
-
-			occur_varset += this->sub_group_pattern[i].bind.varset;
+			// BIND must respect original order, at any depth
+			check_condition = false;
 		}
 		else if (this->sub_group_pattern[i].type == SubGroupPattern::Subquery_type)
 		{
-- 
2.43.0


From 7cbaee0255a1f5b70e45ebeae0bc34a827205ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:25 +0000
Subject: [PATCH 044/107] fix: computed variables without a value took part in
 joins, or were compared as ids with strings

---
 Query/GeneralEvaluation.cpp |   1 +
 Query/TempResult.cpp        | 100 ++++++++++++++++++++++++++++--------
 Query/TempResult.h          |   1 +
 Util/EvalMultitypeValue.cpp |   4 +-
 4 files changed, 82 insertions(+), 24 deletions(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 02ad24e..f9e8d01 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -1369,6 +1369,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
                 cout<<"<NONSIMP> number of results: "<<temp_rs->ansNum<<endl;
                 TempResultSet *temp_trs = new TempResultSet();
                 temp_trs->results.push_back(temp_rs->to_tempresult());
+                temp_trs->separateUnbound();
 				if (result->results.empty())
 		    	{
 		    		delete result;
diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index a6a20bb..9808198 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -937,14 +937,14 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		EvalMultitypeValue x;
 
 		x = doComp(root.children[0], row, id_cols, kvstore, this_varset, entity_literal_varset);
-		if (x.datatype == EvalMultitypeValue::rdf_term)
+		size_t p = string::npos;
+		if (!x.term_value.empty() && x.term_value[0] == '"')
+			p = x.term_value.rfind("\"^^<");
+		if (p != string::npos)
 		{
-			size_t p = x.term_value.rfind("^^");
-			if (p != string::npos)
-			{
-				ret_femv.datatype = EvalMultitypeValue::iri;
-				ret_femv.term_value = x.term_value.substr(p + 2);
-			}
+			// The datatype as written: xsd:long, xsd:date and malformed values have no type of their own
+			ret_femv.datatype = EvalMultitypeValue::iri;
+			ret_femv.term_value = x.term_value.substr(p + 3);
 		}
 		else if (x.datatype == EvalMultitypeValue::literal)
 		{
@@ -1166,8 +1166,8 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 	{
 		EvalMultitypeValue x;
 		x = doComp(root.children[0], row, id_cols, kvstore, this_varset, entity_literal_varset);
-		// Only return false when x is xsd_boolean and has error_value
-		if (x.datatype == EvalMultitypeValue::xsd_boolean && x.bool_value.getValue() == 2)
+		// Only return false when x has no value: xsd_boolean with error_value, and not by a malformed literal
+		if (x.datatype == EvalMultitypeValue::xsd_boolean && x.bool_value.getValue() == 2 && x.term_value.empty())
 			ret_femv.bool_value = EvalMultitypeValue::EffectiveBooleanValue::false_value;
 		else
 			ret_femv.bool_value = EvalMultitypeValue::EffectiveBooleanValue::true_value;
@@ -1261,11 +1261,16 @@ void TempResult::doBind(const GroupPattern::Bind &bind, KVstore *kvstore, Varset
 {
 	Varset this_varset = this->getAllVarset();
 	int this_id_cols = this->id_varset.getVarsetSize();
+	bool is_new = !this->str_varset.findVar(bind.var);
 	this->str_varset.addVar(bind.var);
+	int pos = Varset(bind.var).mapTo(this->str_varset)[0];
 	for (int i = 0; i < (int)this->result.size(); i++)
 	{
 		EvalMultitypeValue ret_femv = doComp(bind.bindExpr, this->result[i], this_id_cols, kvstore, this_varset, entity_literal_varset);
-		this->result[i].str.push_back(ret_femv.getRep());
+		if (is_new)
+			this->result[i].str.push_back(ret_femv.getRep());
+		else
+			this->result[i].str[pos] = ret_femv.getRep();
 	}
 	return;
 }
@@ -1342,12 +1347,15 @@ void TempResultSet::doJoin(TempResultSet &x, TempResultSet &r, StringIndex *stri
 	for (int i = 0; i < (int)x.results.size(); i++)
 		x_str_varset += x.results[i].str_varset;
 
+	// A variable computed in any of the results is compared as a string in all of them
+	Varset str_varset = this_str_varset + x_str_varset;
+
 	for (int i = 0; i < (int)this->results.size(); i++)
-		if (this->results[i].id_varset.hasCommonVar(x_str_varset))
-			this->results[i].convertId2Str(this->results[i].id_varset * x_str_varset, stringindex, entity_literal_varset);
+		if (this->results[i].id_varset.hasCommonVar(str_varset))
+			this->results[i].convertId2Str(this->results[i].id_varset * str_varset, stringindex, entity_literal_varset);
 	for (int i = 0; i < (int)x.results.size(); i++)
-		if (x.results[i].id_varset.hasCommonVar(this_str_varset))
-			x.results[i].convertId2Str(x.results[i].id_varset * this_str_varset, stringindex, entity_literal_varset);
+		if (x.results[i].id_varset.hasCommonVar(str_varset))
+			x.results[i].convertId2Str(x.results[i].id_varset * str_varset, stringindex, entity_literal_varset);
 
 	// long totalFindCompTime = 0, totalInnerJoinTime = 0;
 	for (int i = 0; i < (int)this->results.size(); i++)
@@ -1422,12 +1430,15 @@ void TempResultSet::doOptional(TempResultSet &x, TempResultSet &r, StringIndex *
 		x_str_varset += x.results[i].str_varset;
 
 	// Align this and x's str varset
+	// A variable computed in any of the results is compared as a string in all of them
+	Varset str_varset = this_str_varset + x_str_varset;
+
 	for (int i = 0; i < (int)this->results.size(); i++)
-		if (this->results[i].id_varset.hasCommonVar(x_str_varset))
-			this->results[i].convertId2Str(this->results[i].id_varset * x_str_varset, stringindex, entity_literal_varset);
+		if (this->results[i].id_varset.hasCommonVar(str_varset))
+			this->results[i].convertId2Str(this->results[i].id_varset * str_varset, stringindex, entity_literal_varset);
 	for (int i = 0; i < (int)x.results.size(); i++)
-		if (x.results[i].id_varset.hasCommonVar(this_str_varset))
-			x.results[i].convertId2Str(x.results[i].id_varset * this_str_varset, stringindex, entity_literal_varset);
+		if (x.results[i].id_varset.hasCommonVar(str_varset))
+			x.results[i].convertId2Str(x.results[i].id_varset * str_varset, stringindex, entity_literal_varset);
 
 	for (int i = 0; i < (int)this->results.size(); i++)
 	{
@@ -1477,12 +1488,15 @@ void TempResultSet::doMinus(TempResultSet &x, TempResultSet &r, StringIndex *str
 	for (int i = 0; i < (int)x.results.size(); i++)
 		x_str_varset += x.results[i].str_varset;
 
+	// A variable computed in any of the results is compared as a string in all of them
+	Varset str_varset = this_str_varset + x_str_varset;
+
 	for (int i = 0; i < (int)this->results.size(); i++)
-		if (this->results[i].id_varset.hasCommonVar(x_str_varset))
-			this->results[i].convertId2Str(this->results[i].id_varset * x_str_varset, stringindex, entity_literal_varset);
+		if (this->results[i].id_varset.hasCommonVar(str_varset))
+			this->results[i].convertId2Str(this->results[i].id_varset * str_varset, stringindex, entity_literal_varset);
 	for (int i = 0; i < (int)x.results.size(); i++)
-		if (x.results[i].id_varset.hasCommonVar(this_str_varset))
-			x.results[i].convertId2Str(x.results[i].id_varset * this_str_varset, stringindex, entity_literal_varset);
+		if (x.results[i].id_varset.hasCommonVar(str_varset))
+			x.results[i].convertId2Str(x.results[i].id_varset * str_varset, stringindex, entity_literal_varset);
 
 	for (int i = 0; i < (int)this->results.size(); i++)
 	{
@@ -1537,6 +1551,45 @@ void TempResultSet::doFilter(const CompTreeNode &filter, KVstore *kvstore, Varse
     printf("before filter size %d, after filter size %d.\n", before_size, after_size);
 }
 
+/**
+	Move the rows in which computed variables have no value (an empty string) to results that lack these variables.
+*/
+void TempResultSet::separateUnbound()
+{
+	int results_num = (int)this->results.size();
+	for (int i = 0; i < results_num; i++)
+	{
+		vector<TempResult::ResultPair> bound;
+		Varset id_varset = this->results[i].id_varset, str_varset = this->results[i].str_varset;
+
+		for (int j = 0; j < (int)this->results[i].result.size(); j++)
+		{
+			TempResult::ResultPair &row = this->results[i].result[j];
+			Varset row_varset;
+			vector<string> row_str;
+			for (int k = 0; k < (int)row.str.size(); k++)
+				if (!row.str[k].empty())
+				{
+					row_varset.addVar(str_varset.vars[k]);
+					row_str.push_back(row.str[k]);
+				}
+
+			if (row_str.size() == row.str.size())
+				bound.push_back(row);
+			else
+			{
+				TempResult::ResultPair new_row = row;
+				new_row.str = row_str;
+				int pos = this->findCompatibleResult(id_varset, row_varset);
+				this->results[pos].result.push_back(new_row);
+			}
+		}
+
+		if (bound.size() < this->results[i].result.size())
+			this->results[i].result.swap(bound);
+	}
+}
+
 void TempResultSet::doBind(const GroupPattern::Bind &bind, KVstore *kvstore, Varset &entity_literal_varset)
 {
 	long tv_begin = Util::get_cur_time();
@@ -1550,6 +1603,9 @@ void TempResultSet::doBind(const GroupPattern::Bind &bind, KVstore *kvstore, Var
 	for (int i = 0; i < (int)this->results.size(); i++)
 		this->results[i].doBind(bind, kvstore,entity_literal_varset);
 
+	// Where the expression is in error the variable stays unbound
+	this->separateUnbound();
+
 	long tv_end = Util::get_cur_time();
 	printf("after doBind, used %ld ms.\n", tv_end - tv_begin);
 }
diff --git a/Query/TempResult.h b/Query/TempResult.h
index a3644bb..7a1cc83 100644
--- a/Query/TempResult.h
+++ b/Query/TempResult.h
@@ -91,6 +91,7 @@ class TempResultSet
         void doFilter(const CompTreeNode &filter, KVstore *kvstore, Varset &entity_literal_varset, unsigned limit_num = std::numeric_limits<unsigned>::max());
 		void doBind(const GroupPattern::Bind &bind, KVstore *kvstore, Varset &entity_literal_varset);
 
+		void separateUnbound();
 		void doProjection1(Varset &proj, TempResultSet &r, StringIndex *stringindex, Varset &entity_literal_varset);
 		void doDistinct1(TempResultSet &r);
 
diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index 2f67411..3c4f698 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -1157,10 +1157,10 @@ string EvalMultitypeValue::getStrContent()
 string EvalMultitypeValue::getRep()
 {
 	string ret;
-	if (datatype == EvalMultitypeValue::xsd_boolean && bool_value.getValue() == 2)
-		return ret;	// An error has no value
 	if (!term_value.empty())
 		return term_value;
+	if (datatype == EvalMultitypeValue::xsd_boolean && bool_value.getValue() == 2)
+		return ret;	// An error has no value
 	if (datatype == EvalMultitypeValue::rdf_term || datatype == EvalMultitypeValue::iri)
 		ret = term_value;
 	else if (datatype == EvalMultitypeValue::xsd_string)
-- 
2.43.0


From 52100f47a91b8d57365ccddaef97987a8cf97197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:56 +0000
Subject: [PATCH 045/107] fix: ORDER BY had no consistent order for mixed
 terms, unbound values and several keys

---
 Util/EvalMultitypeValue.cpp | 62 ++++++++++++++++++++++++++++++++++++-
 Util/EvalMultitypeValue.h   |  5 +++
 Util/Stream.cpp             | 14 +++------
 3 files changed, 71 insertions(+), 10 deletions(-)

diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index 3c4f698..b779c3c 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -1192,4 +1192,64 @@ string EvalMultitypeValue::getRep()
 			"\"^^<http://www.w3.org/2001/XMLSchema#dateTime>";
 	}
 	return ret;
-}
\ No newline at end of file
+}
+
+bool
+EvalMultitypeValue::isNumeric() const
+{
+	return this->datatype == xsd_integer || this->datatype == xsd_long || this->datatype == xsd_decimal
+		|| this->datatype == xsd_float || this->datatype == xsd_double;
+}
+
+int
+EvalMultitypeValue::compareOrder(const EvalMultitypeValue &x) const
+{
+	auto rank = [](const EvalMultitypeValue &v)
+	{
+		if (v.term_value.empty())
+			return 0;
+		if (v.term_value[0] == '_')
+			return 1;
+		if (v.term_value[0] != '"')
+			return 2;
+		if (v.isNumeric())
+			return 3;
+		return v.datatype == xsd_datetime ? 4 : 5;
+	};
+	auto number = [](const EvalMultitypeValue &v)
+	{
+		switch (v.datatype)
+		{
+			case xsd_integer: return (double)v.int_value;
+			case xsd_long: return (double)v.long_value;
+			case xsd_double: return v.dbl_value;
+			default: return (double)v.flt_value;
+		}
+	};
+
+	int rank_a = rank(*this), rank_b = rank(x);
+	if (rank_a != rank_b)
+		return rank_a - rank_b;
+	if (rank_a == 3)
+	{
+		double a = number(*this), b = number(x);
+		if (a != a || b != b)	// NaN comes first
+			return (a == a) - (b == b);
+		return a < b ? -1 : (a > b ? 1 : 0);
+	}
+	if (rank_a == 4 && this->dt_value.date != x.dt_value.date)
+		return this->dt_value.date < x.dt_value.date ? -1 : 1;
+	if (rank_a == 4)
+		return 0;
+	if (rank_a == 5)
+	{
+		// Lexical forms first, then language tags or datatypes
+		size_t end_a = this->term_value.rfind('"'), end_b = x.term_value.rfind('"');
+		int lexical = this->term_value.substr(0, end_a).compare(x.term_value.substr(0, end_b));
+		if (lexical != 0)
+			return lexical;
+	}
+	if (rank_a == 2)	// Without the closing bracket, as it sorts after most characters
+		return this->term_value.compare(0, this->term_value.length() - 1, x.term_value, 0, x.term_value.length() - 1);
+	return this->term_value.compare(x.term_value);
+}
diff --git a/Util/EvalMultitypeValue.h b/Util/EvalMultitypeValue.h
index b382042..d5febab 100644
--- a/Util/EvalMultitypeValue.h
+++ b/Util/EvalMultitypeValue.h
@@ -109,6 +109,11 @@ class EvalMultitypeValue
 													// (for string funcs that takes two arguments)
 		std::string getStrContent();	// Return string content of literal/xsd_string
 		std::string getRep();	// Get the full representation (with suffix)
+
+		bool isNumeric() const;
+		// Total order of ORDER BY, MIN and MAX: <0, 0 or >0
+		// (no value, blank nodes, IRIs, then literals: numbers by value, dateTimes by time, others by string)
+		int compareOrder(const EvalMultitypeValue &x) const;
 };
 
 #endif //_UTIL_EVALMULTITYPEVALUE_H
\ No newline at end of file
diff --git a/Util/Stream.cpp b/Util/Stream.cpp
index b31828b..e3c311f 100644
--- a/Util/Stream.cpp
+++ b/Util/Stream.cpp
@@ -26,8 +26,7 @@ bool ResultCmp::operator() (Bstr* const& a, Bstr* const& b)
             //return (a[i] < b[i]);
     //}
     unsigned size = this->keys.size();
-    EvalMultitypeValue a_emv, b_emv, res;
-    int retVal = 0;
+    EvalMultitypeValue a_emv, b_emv;
     for(unsigned i = 0; i < size; ++i) {
         int t = this->keys[i];
         if (a[t] == b[t])
@@ -38,14 +37,11 @@ bool ResultCmp::operator() (Bstr* const& a, Bstr* const& b)
         b_emv.term_value.assign(b[t].getStr(), b[t].getLen());
         b_emv.deduceTypeValue();
 
-        if(this->desc[i])
-            res = a_emv > b_emv;
-        else
-            res = a_emv < b_emv;
-        retVal = res.bool_value.getValue();
-        return retVal;  // 1 or 2: true or error value, return true; 0: false, return false
+        int order = a_emv.compareOrder(b_emv);
+        if (order != 0)
+            return this->desc[i] ? order > 0 : order < 0;
     }
-    return true;
+    return false;
 }
 
 void
-- 
2.43.0


From f1510a3878cf19ae7f3da0a4c161c8591a313c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:56 +0000
Subject: [PATCH 046/107] fix: aggregates over no solution, several aggregates
 without GROUP BY, DISTINCT and mixed values were wrong

---
 Query/GeneralEvaluation.cpp | 404 ++++++++----------------------------
 Query/QueryTree.cpp         |  13 ++
 Query/QueryTree.h           |   1 +
 3 files changed, 102 insertions(+), 316 deletions(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index f9e8d01..3c202ec 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -936,7 +936,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 								}
 
 							//// Reduce useful: return result vars ////
-							if (!this->query_tree.checkProjectionAsterisk() && local_useful.hasCommonVar(occur))
+							if (!this->query_tree.checkProjectionAsterisk() && !this->query_tree.checkCountDistinctAsterisk() && local_useful.hasCommonVar(occur))
 								local_useful = local_useful * occur;	// Only the common vars remain
 							else
 								local_useful = occur;
@@ -1499,7 +1499,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 		Varset useful = this->query_tree.getResultProjectionVarset() + this->query_tree.getGroupByVarset() \
 						+ this->query_tree.getOrderByVarset();
 
-		if (this->query_tree.checkProjectionAsterisk())
+		if (this->query_tree.checkProjectionAsterisk() || this->query_tree.checkCountDistinctAsterisk())
 		{
 			for (int i = 0; i < (int)this->temp_result->results.size(); i++)
 				useful += this->temp_result->results[i].getAllVarset();
@@ -1582,21 +1582,6 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 				result0.sort(0, result0_size - 1, group2temp);
 			}
 
-			TempResultSet *temp_result_distinct = NULL;
-			vector<int> group2distinct;
-
-			for (int i = 0; i < (int)proj.size(); i++)
-				if (proj[i].aggregate_type == ProjectionVar::Count_type && proj[i].distinct && proj[i].aggregate_var == "*")
-				{
-					temp_result_distinct = new TempResultSet();
-
-					this->temp_result->doDistinct1(*temp_result_distinct);
-					group2distinct = this->query_tree.getGroupByVarset().mapTo(temp_result_distinct->results[0].getAllVarset());
-					temp_result_distinct->results[0].sort(0, (int)temp_result_distinct->results[0].result.size() - 1, group2distinct);
-
-					break;
-				}
-
 			int result0_id_cols = result0.id_varset.getVarsetSize();
 			int new_result0_id_cols = new_result0.id_varset.getVarsetSize();
 			int new_result0_str_cols = new_result0.str_varset.getVarsetSize();
@@ -2281,7 +2266,14 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 				}
 			}
 			// Exclusive with the if branch above
-			for (int begin = 0; begin < result0_size;)
+			// Aggregates without GROUP BY: a single group, also when there is no solution
+			bool one_group = group2temp.empty() && !proj.empty();
+			for (const ProjectionVar &p : proj)
+				one_group = one_group && (p.aggregate_type == ProjectionVar::Count_type
+					|| p.aggregate_type == ProjectionVar::Sum_type || p.aggregate_type == ProjectionVar::Avg_type
+					|| p.aggregate_type == ProjectionVar::Min_type || p.aggregate_type == ProjectionVar::Max_type
+					|| p.aggregate_type == ProjectionVar::Groupconcat_type || p.aggregate_type == ProjectionVar::Sample_type);
+			for (int begin = 0; begin < result0_size || (one_group && new_result0.result.empty());)
 			{
 				// At the end of an iteration, begin will be set to end + 1
 				// The value of end will depend on GROUP BY conditions
@@ -2289,9 +2281,9 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 				if (group2temp.empty()) {
 					end = result0_size - 1;
 					int resultSz = result0_size;
-					if (proj.size() == 1 && proj[0].aggregate_type != ProjectionVar::None_type \
+					if (one_group || (proj.size() == 1 && proj[0].aggregate_type != ProjectionVar::None_type \
 					&& proj[0].aggregate_type != ProjectionVar::CompTree_type && proj[0].aggregate_type != ProjectionVar::Contains_type \
-					&& proj[0].aggregate_type != ProjectionVar::PFN_type)
+					&& proj[0].aggregate_type != ProjectionVar::PFN_type))
 						resultSz = 1;
 					// Reserve all lines of results
 					new_result0.result.resize(resultSz);
@@ -2340,318 +2332,104 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 						|| proj[i].aggregate_type == ProjectionVar::Groupconcat_type
 						|| proj[i].aggregate_type == ProjectionVar::Sample_type)
 					{
-						int count = 0;
-						bool numeric = false, datetime = false, succ = true;
-						EvalMultitypeValue numeric_sum, numeric_min, numeric_max, datetime_min, datetime_max, tmp, res;
-						string groupconcat;
-						string sample_result;
-						numeric_sum.datatype = EvalMultitypeValue::xsd_integer;
-						numeric_sum.int_value = 0;
-						numeric_min.datatype = EvalMultitypeValue::xsd_long;
-						numeric_min.long_value = LONG_LONG_MAX;
-						numeric_max.datatype = EvalMultitypeValue::xsd_long;
-						numeric_max.long_value = LONG_LONG_MIN;
-						datetime_min.datatype = EvalMultitypeValue::xsd_datetime;
-						datetime_max.datatype = EvalMultitypeValue::xsd_datetime;
-
+						// The values the aggregate is computed over; errors and unbound values are left out
+						vector<EvalMultitypeValue> values;
 						if (proj[i].aggregate_var != "*")
 						{
-							if (proj[i].distinct)
+							set<string> seen;
+							for (int j = begin; j <= end; j++)
 							{
-								set<string> count_set;
-								Varset result0Varset = result0.getAllVarset();
-								for (int j = begin; j <= end; j++)
-								{
-									tmp = result0.doComp(proj[i].comp_tree_root, result0.result[j], result0_id_cols, kvstore, \
-										result0Varset, query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset);
-									if (tmp.datatype == EvalMultitypeValue::xsd_boolean && \
-										tmp.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::error_value)
-										continue;
-									numeric = false;
-									datetime = false;
-									if (tmp.datatype != EvalMultitypeValue::xsd_integer && tmp.datatype != EvalMultitypeValue::xsd_decimal
-										&& tmp.datatype != EvalMultitypeValue::xsd_float && tmp.datatype != EvalMultitypeValue::xsd_double
-										&& tmp.datatype != EvalMultitypeValue::xsd_long)
-									{
-										if (proj[i].aggregate_type == ProjectionVar::Sum_type
-											|| proj[i].aggregate_type == ProjectionVar::Avg_type)
-										{
-											cout << "[ERROR] Invalid type for SUM or AVG." << endl;
-											continue;
-										}
-										else if ((proj[i].aggregate_type == ProjectionVar::Min_type
-											|| proj[i].aggregate_type == ProjectionVar::Max_type)
-											&& tmp.datatype != EvalMultitypeValue::xsd_datetime)
-										{
-											cout << "[ERROR] Invalid type for MIN or MAX." << endl;
-											continue; 
-										}
-									}
-									else
-									{
-										if (!numeric)
-											numeric = true;
-									}
-									if (tmp.datatype == EvalMultitypeValue::xsd_datetime)
-									{
-										if (!datetime)
-											datetime = true;
-									}
-									if (!datetime && !numeric && proj[i].aggregate_type != ProjectionVar::Count_type \
-										&& proj[i].aggregate_type != ProjectionVar::Groupconcat_type \
-										&& proj[i].aggregate_type != ProjectionVar::Sample_type)
-									{
-										succ = false;
-										break;
-									}
-
-									if (proj[i].aggregate_type == ProjectionVar::Count_type
-										|| proj[i].aggregate_type == ProjectionVar::Sum_type
-										|| proj[i].aggregate_type == ProjectionVar::Avg_type)
-										count_set.insert(tmp.term_value);
-									else if (proj[i].aggregate_type == ProjectionVar::Groupconcat_type)
-										count_set.insert(tmp.str_value);
-									else if (proj[i].aggregate_type == ProjectionVar::Sample_type)
-										sample_result = tmp.str_value;
-									else if (proj[i].aggregate_type == ProjectionVar::Min_type)
-									{
-										if (numeric)
-										{
-											res = numeric_min > tmp;
-											if (res.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
-												numeric_min = tmp;
-										}
-										else if (datetime)
-										{
-											res = datetime_min > tmp;
-											if (res.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
-												datetime_min = tmp;
-										}
-									}
-									else if (proj[i].aggregate_type == ProjectionVar::Max_type)
-									{
-										if (numeric)
-										{
-											res = numeric_max < tmp;
-											if (res.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
-												numeric_max = tmp;
-										}
-										else if (datetime)
-										{
-											res = datetime_max < tmp;
-											if (res.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
-												datetime_max = tmp;
-										}
-									}
-								}
-								// for (auto elem : count_set)
-								// 	cout << elem << ' ';
-								cout << endl;
-								count = (int)count_set.size();
-								if (proj[i].aggregate_type == ProjectionVar::Sum_type
-									|| proj[i].aggregate_type == ProjectionVar::Avg_type)
-								{
-									for (string elem : count_set)
-									{
-										tmp.term_value = elem;
-										tmp.deduceTypeValue();
+								EvalMultitypeValue value = result0.doComp(proj[i].comp_tree_root, result0.result[j], result0_id_cols, kvstore, \
+									result0Varset, query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset);
+								value.term_value = value.getRep();
+								if (value.term_value.empty())
+									continue;
+								if (proj[i].distinct && !seen.insert(value.term_value).second)
+									continue;
+								value.deduceTypeValue();
+								values.push_back(value);
+							}
+						}
 
-										numeric_sum = numeric_sum + tmp;
-									}
-								}
-								else if (proj[i].aggregate_type == ProjectionVar::Groupconcat_type)
-								{
-									for (string elem : count_set)
-									{
-										size_t bIdx = elem.find('\"'), eIdx = elem.rfind('\"');
-										if (bIdx == string::npos || eIdx == string::npos || bIdx == eIdx)
-											continue;
-										if (groupconcat.empty())
-											groupconcat += "\"";
-										else
-											groupconcat += proj[i].separator;
-										groupconcat += elem.substr(bIdx + 1, eIdx - bIdx - 1);
-									}
-									if (!groupconcat.empty())
-										groupconcat += "\"";
-								}
-								if (proj[i].aggregate_type == ProjectionVar::Avg_type)
-								{
-									tmp.term_value = "\"" + to_string(count) + "\"^^<http://www.w3.org/2001/XMLSchema#integer>";
-									tmp.deduceTypeValue();
+						// Write aggregate result
+						string &aggregate = new_result0.result.back().str[proj2new[i] - new_result0_id_cols];
 
-									numeric_sum = numeric_sum / tmp;
-								}
-							}
-							else 	// No DISTINCT
+						if (proj[i].aggregate_type == ProjectionVar::Count_type)
+						{
+							int count = (int)values.size();
+							if (proj[i].aggregate_var == "*" && !proj[i].distinct)
+								count = end - begin + 1;
+							else if (proj[i].aggregate_var == "*")
 							{
-								Varset result0Varset = result0.getAllVarset();
+								set<pair<vector<unsigned>, vector<string>>> seen;
 								for (int j = begin; j <= end; j++)
 								{
-									tmp = result0.doComp(proj[i].comp_tree_root, result0.result[j], result0_id_cols, kvstore, \
-										result0Varset, query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset);
-									if (tmp.datatype == EvalMultitypeValue::xsd_boolean && \
-										tmp.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::error_value)
-										continue;
-									if (tmp.datatype != EvalMultitypeValue::xsd_integer
-										&& tmp.datatype != EvalMultitypeValue::xsd_decimal
-										&& tmp.datatype != EvalMultitypeValue::xsd_float
-										&& tmp.datatype != EvalMultitypeValue::xsd_double
-										&& tmp.datatype != EvalMultitypeValue::xsd_long)
-									{
-										if (proj[i].aggregate_type == ProjectionVar::Sum_type
-											|| proj[i].aggregate_type == ProjectionVar::Avg_type)
-										{
-											cout << "[ERROR] Invalid type for SUM or AVG." << endl;
-											continue;
-										}
-										else if ((proj[i].aggregate_type == ProjectionVar::Min_type
-											|| proj[i].aggregate_type == ProjectionVar::Max_type)
-											&& tmp.datatype != EvalMultitypeValue::xsd_datetime)
-										{
-											cout << "[ERROR] Invalid type for MIN or MAX." << endl;
-											continue; 
-										}
-									}
-									if (tmp.datatype == EvalMultitypeValue::xsd_datetime)
-									{
-										if (!datetime)
-											datetime = true;
-									}
-									else
-									{
-										if (!numeric)
-											numeric = true;
-									}
-									if (datetime && numeric && proj[i].aggregate_type != ProjectionVar::Count_type)
-									{
-										succ = false;
-										break;
-									}
-
-									if (proj[i].aggregate_type == ProjectionVar::Sum_type
-										|| proj[i].aggregate_type == ProjectionVar::Avg_type)
-									{
-										numeric_sum = numeric_sum + tmp;
-										cout << "numeric_sum.term_value = " << numeric_sum.term_value << endl;
-									}
-									else if (proj[i].aggregate_type == ProjectionVar::Groupconcat_type)
-									{
-										size_t bIdx = tmp.str_value.find('\"'), eIdx = tmp.str_value.rfind('\"');
-										if (groupconcat.empty())
-											groupconcat += "\"";
-										else
-											groupconcat += proj[i].separator;
-										if (bIdx == string::npos || eIdx == string::npos || bIdx == eIdx)
-											groupconcat += tmp.str_value;
-										else
-											groupconcat += tmp.str_value.substr(bIdx + 1, eIdx - bIdx - 1);
-									}
-									else if (proj[i].aggregate_type == ProjectionVar::Min_type)
-									{
-										if (numeric)
-										{
-											res = numeric_min > tmp;
-											if (res.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
-												numeric_min = tmp;
-										}
-										else if (datetime)
-										{
-											res = datetime_min > tmp;
-											if (res.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
-												datetime_min = tmp;
-										}
-									}
-									else if (proj[i].aggregate_type == ProjectionVar::Max_type)
-									{
-										if (numeric)
-										{
-											res = numeric_max < tmp;
-											if (res.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
-												numeric_max = tmp;
-										}
-										else if (datetime)
-										{
-											res = datetime_max < tmp;
-											if (res.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
-												datetime_max = tmp;
-										}
-									}
-									else if (proj[i].aggregate_type == ProjectionVar::Sample_type)
-									{
-										if (sample_result.empty())
-											sample_result = tmp.str_value;
-									}
-
-									count++;
-								}
-								if (proj[i].aggregate_type == ProjectionVar::Groupconcat_type)
-									groupconcat += "\"";
-								else if (proj[i].aggregate_type == ProjectionVar::Avg_type)
-								{
-									tmp.term_value = "\"" + to_string(count) + "\"^^<http://www.w3.org/2001/XMLSchema#integer>";
-									tmp.deduceTypeValue();
-
-									numeric_sum = numeric_sum / tmp;
+									const TempResult::ResultPair &row = result0.result[j];
+									seen.emplace(vector<unsigned>(row.id, row.id + result0_id_cols), row.str);
 								}
+								count = (int)seen.size();
 							}
+							aggregate = "\"" + to_string(count) + "\"^^<http://www.w3.org/2001/XMLSchema#integer>";
 						}
-						else 	// Only COUNT is possible
+						else if (proj[i].aggregate_type == ProjectionVar::Sum_type
+							|| proj[i].aggregate_type == ProjectionVar::Avg_type)
 						{
-							if (proj[i].distinct)
+							int count = 0;
+							EvalMultitypeValue numeric_sum, numeric_count;
+							numeric_sum.datatype = EvalMultitypeValue::xsd_integer;
+							numeric_sum.int_value = 0;
+							numeric_sum.deduceTermValue();
+							for (EvalMultitypeValue &value : values)
 							{
-								count = temp_result_distinct->results[0].findRightBounder(group2distinct, result0.result[begin], result0_id_cols, group2temp) -
-									temp_result_distinct->results[0].findLeftBounder(group2distinct, result0.result[begin], result0_id_cols, group2temp) + 1;
+								if (!value.isNumeric())
+								{
+									cout << "[ERROR] Invalid type for SUM or AVG." << endl;
+									continue;
+								}
+								numeric_sum = numeric_sum + value;
+								count++;
 							}
-							else
+							if (proj[i].aggregate_type == ProjectionVar::Avg_type && count > 0)
 							{
-								count = end - begin + 1;
+								numeric_count.term_value = "\"" + to_string(count) + "\"^^<http://www.w3.org/2001/XMLSchema#integer>";
+								numeric_count.deduceTypeValue();
+								numeric_sum = numeric_sum / numeric_count;
 							}
+							aggregate = numeric_sum.term_value;
 						}
-
-						// Write aggregate result
-						stringstream ss;
-
-						if (proj[i].aggregate_type == ProjectionVar::Count_type)
-						{
-							ss << "\"";
-							ss << count;
-							ss << "\"^^<http://www.w3.org/2001/XMLSchema#integer>";
-						}
-						else if (succ)
+						else if (proj[i].aggregate_type == ProjectionVar::Min_type
+							|| proj[i].aggregate_type == ProjectionVar::Max_type)
 						{
-							if (proj[i].aggregate_type == ProjectionVar::Sum_type
-								|| proj[i].aggregate_type == ProjectionVar::Avg_type)
-							{
-								cout << "numeric_sum.term_value = " << numeric_sum.term_value << endl;
-								ss << numeric_sum.term_value;
-							}
-							else if (proj[i].aggregate_type == ProjectionVar::Min_type)
+							for (size_t j = 0, best = 0; j < values.size(); j++)
 							{
-								if (numeric)
-									ss << numeric_min.term_value;
-								else if (datetime)
-									ss << datetime_min.term_value;
+								int order = values[j].compareOrder(values[best]);
+								if (proj[i].aggregate_type == ProjectionVar::Min_type ? order < 0 : order > 0)
+									best = j;
+								aggregate = values[best].term_value;
 							}
-							else if (proj[i].aggregate_type == ProjectionVar::Max_type)
-							{
-								if (numeric)
-									ss << numeric_max.term_value;
-								else if (datetime)
-									ss << datetime_max.term_value;
-							}
-							else if (proj[i].aggregate_type == ProjectionVar::Sample_type)
+						}
+						else if (proj[i].aggregate_type == ProjectionVar::Sample_type)
+						{
+							if (!values.empty())
+								aggregate = values[0].term_value;
+						}
+						else 	// GROUP_CONCAT
+						{
+							string groupconcat;
+							for (size_t j = 0; j < values.size(); j++)
 							{
-								ss << sample_result;
+								const string &term = values[j].term_value;
+								if (j > 0)
+									groupconcat += proj[i].separator;
+								if (term[0] == '"')
+									groupconcat += term.substr(1, term.rfind('"') - 1);
+								else if (term[0] == '<')
+									groupconcat += term.substr(1, term.length() - 2);
+								else
+									groupconcat += term;
 							}
+							aggregate = "\"" + groupconcat + "\"";
 						}
-						else 	// Failed
-							ss << "";
-
-						if (groupconcat.empty())
-							ss >> new_result0.result.back().str[proj2new[i] - new_result0_id_cols];
-						else
-							new_result0.result.back().str[proj2new[i] - new_result0_id_cols] = groupconcat;
 					}
 					else if (proj[i].aggregate_type == ProjectionVar::CompTree_type)
 					{
@@ -3552,12 +3330,6 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 				begin = end + 1;
 			}
 
-			if (temp_result_distinct != NULL)
-			{
-				temp_result_distinct->release();
-				delete temp_result_distinct;
-			}
-
 			this->temp_result->release();
 			delete this->temp_result;
 
@@ -3919,7 +3691,7 @@ void GeneralEvaluation::getUsefulVarset(Varset& useful, int dep)
 	// Vars that are SELECT, GROUP BY, or ORDER BY //
 	useful = this->query_tree.getResultProjectionVarset() + this->query_tree.getGroupByVarset() \
 				+ this->query_tree.getOrderByVarset();
-	if (!this->query_tree.checkProjectionAsterisk())
+	if (!this->query_tree.checkProjectionAsterisk() && !this->query_tree.checkCountDistinctAsterisk())
 	{
 		// All vars from ancestor levels' triples and filters //
 		for (int j = 0; j < dep; j++)
diff --git a/Query/QueryTree.cpp b/Query/QueryTree.cpp
index 702dc79..eafc78f 100644
--- a/Query/QueryTree.cpp
+++ b/Query/QueryTree.cpp
@@ -602,6 +602,19 @@ bool QueryTree::checkProjectionAsterisk()
 	return this->projection_asterisk;
 }
 
+/**
+	Check if COUNT(DISTINCT *) is selected, which depends on every variable.
+
+	@return true if so; false otherwise.
+*/
+bool QueryTree::checkCountDistinctAsterisk()
+{
+	for (const ProjectionVar &p : this->projection)
+		if (p.aggregate_type == ProjectionVar::Count_type && p.distinct && p.aggregate_var == "*")
+			return true;
+	return false;
+}
+
 /**
 	Add a GROUP BY variable.
 	
diff --git a/Query/QueryTree.h b/Query/QueryTree.h
index 13cc757..7e7c6bb 100644
--- a/Query/QueryTree.h
+++ b/Query/QueryTree.h
@@ -172,6 +172,7 @@ public:
 
 	void setProjectionAsterisk();
 	bool checkProjectionAsterisk();
+	bool checkCountDistinctAsterisk();
 
 	void addGroupByVar(std::string &_var);
 	Varset& getGroupByVarset();
-- 
2.43.0


From b3200df09636e8be780584ca7ef0519555692b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:06 +0000
Subject: [PATCH 047/107] fix: characters beyond U+FFFF and the escapes b, f
 and ' of RDF files were corrupted or refused

---
 Parser/TurtleParser.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Parser/TurtleParser.cpp b/Parser/TurtleParser.cpp
index 54096d9..f82d866 100644
--- a/Parser/TurtleParser.cpp
+++ b/Parser/TurtleParser.cpp
@@ -165,6 +165,11 @@ static string encodeUtf8(unsigned code)
    } else if (code<0x800) {
       result+=static_cast<char>(0xc0 | (0x1f & (code >> 6)));
       result+=static_cast<char>(0x80 | (0x3f & code));
+   } else if (code>=0x10000) {
+      result+=static_cast<char>(0xf0 | (0x07 & (code >> 18)));
+      result+=static_cast<char>(0x80 | (0x3f & (code >> 12)));
+      result+=static_cast<char>(0x80 | (0x3f & (code >>  6)));
+      result+=static_cast<char>(0x80 | (0x3f & code));
    } else {
       result+=static_cast<char>(0xe0 | (0x0f & (code >> 12)));
       result+=static_cast<char>(0x80 | (0x3f & (code >>  6)));
@@ -183,7 +188,10 @@ void TurtleParser::Lexer::lexEscape(std::string& token)
       if (c=='t') { token+='\t'; return; }
       if (c=='n') { token+='\n'; return; }
       if (c=='r') { token+='\r'; return; }
+      if (c=='b') { token+='\b'; return; }
+      if (c=='f') { token+='\f'; return; }
       if (c=='\"') { token+='\"'; return; }
+      if (c=='\'') { token+='\''; return; }
       if (c=='>') { token+='>'; return; }
       if (c=='\\') { token+='\\'; return; }
 
-- 
2.43.0


From 902e5c913b62af463e7620643548c0883cf3be36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:06 +0000
Subject: [PATCH 048/107] fix: quotes inside long strings of Turtle files lost
 the character after them

---
 Parser/TurtleParser.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/Parser/TurtleParser.cpp b/Parser/TurtleParser.cpp
index f82d866..8d8f954 100644
--- a/Parser/TurtleParser.cpp
+++ b/Parser/TurtleParser.cpp
@@ -221,11 +221,14 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::lexLongString(std::string& token
    char c;
    while (read(c)) {
       if (c=='\"') {
-         if (!read(c)) break;
-         if (c!='\"') { token+='\"'; continue; }
-         if (!read(c)) break;
-         if (c!='\"') { token+="\"\""; continue; }
-         return String;
+         unsigned quotes=1;
+         while ((quotes<3)&&read(c)) {
+            if (c!='\"') { unread(); break; }
+            quotes++;
+         }
+         if (quotes==3) return String;
+         token.append(quotes,'\"');
+         continue;
       }
       if (c=='\\') {
          lexEscape(token);
-- 
2.43.0


From 071f307b901984879f769f8dcd29cd045f7dae6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:06 +0000
Subject: [PATCH 049/107] fix: an integer at the end of a Turtle statement
 became a decimal with its dot

---
 Parser/TurtleParser.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/Parser/TurtleParser.cpp b/Parser/TurtleParser.cpp
index 8d8f954..20fed9e 100644
--- a/Parser/TurtleParser.cpp
+++ b/Parser/TurtleParser.cpp
@@ -87,7 +87,12 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::lexNumber(std::string& token,cha
       // Dot?
       if (c=='.') {
          token+=c;
-         if (!read(c)) break;
+         if (!read(c)) {
+            if ((token.length()<2)||(token[token.length()-2]<'0')) break;
+            token.resize(token.length()-1);
+            putBack=Dot;
+            return Integer;
+         }
          // Second number block
          while ((c>='0')&&(c<='9')) {
             token+=c;
@@ -95,6 +100,13 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::lexNumber(std::string& token,cha
          }
          if (issep(c)) {
             unread();
+            // An integer at the end of a statement
+            if (token[token.length()-1]=='.') {
+               if ((token.length()<2)||(token[token.length()-2]<'0')) break;
+               token.resize(token.length()-1);
+               putBack=Dot;
+               return Integer;
+            }
             return Decimal;
          }
       }
-- 
2.43.0


From 9edd40dcd5c736240e084da52f6414a3b358f50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:06 +0000
Subject: [PATCH 050/107] fix: a malformed statement of an RDF file could cost
 the next one or leave a part of it behind

---
 Parser/TurtleParser.cpp | 58 ++++++++++++++++++++++++++++++++++++-----
 Parser/TurtleParser.h   | 21 ++++++++++++++-
 2 files changed, 71 insertions(+), 8 deletions(-)

diff --git a/Parser/TurtleParser.cpp b/Parser/TurtleParser.cpp
index 20fed9e..96f459c 100644
--- a/Parser/TurtleParser.cpp
+++ b/Parser/TurtleParser.cpp
@@ -30,7 +30,7 @@ TurtleParser::Exception::~Exception()
 }
 //---------------------------------------------------------------------------
 TurtleParser::Lexer::Lexer(istream& in)
-   : in(in),putBack(Eof),line(1),readBufferStart(0),readBufferEnd(0)
+   : in(in),putBack(Eof),line(1),newLine(false),firstOfLine(false),firstToken(Eof),tokens(0),readBufferStart(0),readBufferEnd(0)
    // Constructor
 {
 }
@@ -279,11 +279,16 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::lexString(std::string& token,cha
    // Process normally
    while (true) {
       if (c=='\"') return String;
+      if (c=='\n') {
+         unread();
+         stringstream msg;
+         msg << "lexer error in line " << line << ": invalid string";
+         throw Exception(msg.str());
+      }
       if (c=='\\') {
          lexEscape(token);
       } else {
          token+=c;
-         if (c=='\n') line++;
       }
       if (!read(c)) {
          stringstream msg;
@@ -312,9 +317,9 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::lexURI(std::string& token,char c
          lexEscape(token);
       } else {
          token+=c;
-         if (c=='\n') line++;
       }
-      if (c==' ' || !read(c)) {
+      if (c=='\n') unread();
+      if (c==' ' || c=='\n' || !read(c)) {
          stringstream msg;
          msg << "lexer error in line " << line << ": invalid URI";
          throw Exception(msg.str());
@@ -324,6 +329,36 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::lexURI(std::string& token,char c
 //---------------------------------------------------------------------------
 TurtleParser::Lexer::Token TurtleParser::Lexer::next(std::string& token)
    // Get the next token
+{
+   bool isNew=(putBack==Eof);
+   if (isNew) {
+      // Not left by a token that cannot be lexed
+      firstOfLine=false;
+      newLine=false;
+      tokens++;
+   }
+   Token result=lex(token);
+   if (isNew&&newLine&&(result!=Eof)) {
+      firstOfLine=true;
+      firstToken=result;
+      firstValue=token;
+   }
+   return result;
+}
+//---------------------------------------------------------------------------
+void TurtleParser::Lexer::recover(unsigned long long start)
+   // Skip to the next line, unless the next line has already been reached
+{
+   if (firstOfLine&&(tokens>start)) {
+      unget(firstToken,firstValue);
+   } else {
+      putBack=Eof;
+      discardLine();
+   }
+}
+//---------------------------------------------------------------------------
+TurtleParser::Lexer::Token TurtleParser::Lexer::lex(std::string& token)
+   // Lex the next token
 {
    // Do we already have one?
    if (putBack!=Eof) {
@@ -338,8 +373,8 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::next(std::string& token)
    while (read(c)) {
       switch (c) {
          case ' ': case '\t': case '\r': continue;
-         case '\n': line++; continue;
-         case '#': while (read(c)) if ((c=='\n')||(c=='\r')) break; if (c=='\n') ++line; continue;
+         case '\n': line++; newLine=true; continue;
+         case '#': while (read(c)) if ((c=='\n')||(c=='\r')) break; if (c=='\n') { ++line; newLine=true; } continue;
          case '.': if (!read(c)) return Dot; unread(); if ((c>='0')&&(c<='9')) return lexNumber(token,'.'); return Dot;
          case ':': return Colon;
          case ';': return Semicolon;
@@ -384,7 +419,7 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::next(std::string& token)
 //---------------------------------------------------------------------------
 //---------------------------------------------------------------------------
 TurtleParser::TurtleParser(istream& in)
-   : lexer(in),triplesReader(0),nextBlank(0)
+   : lexer(in),triplesReader(0),nextBlank(0),statementStart(0)
    // Constructor
 {
 }
@@ -748,6 +783,14 @@ void TurtleParser::parseTriple(Lexer::Token token,std::string& subject,std::stri
       parseError("'.' expected after triple");
 }
 //---------------------------------------------------------------------------
+void TurtleParser::discardLine()
+   // Continue after an error: nothing of the statement is kept
+{
+   triples.clear();
+   triplesReader=0;
+   lexer.recover(statementStart);
+}
+//---------------------------------------------------------------------------
 bool TurtleParser::parse(std::string& subject,std::string& predicate,std::string& object,Type::ID& objectType,std::string& objectSubType)
    // Read the next triple
 {
@@ -769,6 +812,7 @@ bool TurtleParser::parse(std::string& subject,std::string& predicate,std::string
    Lexer::Token token;
    while (true) {
       token=lexer.next(subject);
+      statementStart=lexer.getTokens();
       if (token==Lexer::Eof) return false;
 
       // A directive?
diff --git a/Parser/TurtleParser.h b/Parser/TurtleParser.h
index c7e9daa..25d561f 100644
--- a/Parser/TurtleParser.h
+++ b/Parser/TurtleParser.h
@@ -52,6 +52,16 @@ class TurtleParser
       std::string ignored;
       /// The current line
       unsigned line;
+      /// Was a line started before the current token?
+      bool newLine;
+      /// Is the last token the first one of its line?
+      bool firstOfLine;
+      /// The first token of the line
+      Token firstToken;
+      /// And its value
+      std::string firstValue;
+      /// Number of tokens read
+      unsigned long long tokens;
 
       /// Size of the read buffer
       static const unsigned readBufferSize = 1024;
@@ -67,6 +77,8 @@ class TurtleParser
       /// Unread the last character
       void unread() { readBufferStart--; }
 
+      /// Lex the next token
+      Token lex(std::string& token);
       /// Lex a hex code
       unsigned lexHexCode(unsigned len);
       /// Lex an escape sequence
@@ -97,7 +109,12 @@ class TurtleParser
       /// Get the line
       unsigned getLine() const { return line; }
 
+      /// Get the number of tokens read
+      unsigned long long getTokens() const { return tokens; }
+
       void discardLine() { char c; while (read(c) && c!='\n'); }
+      /// Continue at the first line that is not part of the statement in error (the one with the given first token)
+      void recover(unsigned long long start);
    };
    /// A triple
    struct Triple {
@@ -122,6 +139,8 @@ class TurtleParser
    unsigned triplesReader;
    /// The next blank node id
    unsigned nextBlank;
+   /// The number of the first token of the statement
+   unsigned long long statementStart;
 
    /// Is a (generalized) name token?
    static inline bool isName(Lexer::Token token);
@@ -156,7 +175,7 @@ class TurtleParser
    /// Read the next triple
    bool parse(std::string& subject,std::string& predicate,std::string& object,Type::ID& objectType,std::string& objectSubType);
 
-   void discardLine() { lexer.discardLine(); }
+   void discardLine();
 };
 //---------------------------------------------------------------------------
 #endif
-- 
2.43.0


From 8f7ed54b9483c1d049f3a2a78cd80cc1487c4549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:48 +0000
Subject: [PATCH 051/107] fix: duplicate triples of a built file counted as
 further instances of classes

---
 Database/Database.cpp | 9 +++++++++
 Database/Database.h   | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index bf78549..37c252a 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -2597,7 +2597,14 @@ void Database::build_s2xx(ID_TUPLE *_p_id_tuples)
 			_p_id_tuples[j] = _p_id_tuples[i];
 			++j;
 		}
+		else
+		{
+			auto it = this->type_id_pairs.find(make_pair(_p_id_tuples[i].preid, _p_id_tuples[i].objid));
+			if (it != this->type_id_pairs.end())
+				this->umap[it->second]--;
+		}
 	}
+	this->type_id_pairs.clear();
 	if (j < this->triples_num)
 		this->triples_num = j;
 
@@ -3084,6 +3091,7 @@ bool Database::sub2id_pre2id_obj2id_RDFintoSignature(const string _rdf_file, con
 	// string type="rdf:type";
 	// this->checkIsTypePredicate(type);
 	this->umap.clear();
+	this->type_id_pairs.clear();
 
 	int batch_count = 0;
 	set<TYPE_ENTITY_LITERAL_ID> sub_lists;
@@ -3205,6 +3213,7 @@ bool Database::sub2id_pre2id_obj2id_RDFintoSignature(const string _rdf_file, con
 					{
 						this->umap.insert(pair<string, unsigned long long>(_obj, 1));
 					}
+					this->type_id_pairs.emplace(make_pair(_pre_id, _obj_id), _obj);
 					// cout<<"the umap size is "<<umap.size()<<endl;
 				}
 			}
diff --git a/Database/Database.h b/Database/Database.h
index 9fa9046..f9a2cd8 100644
--- a/Database/Database.h
+++ b/Database/Database.h
@@ -212,6 +212,8 @@ private:
 
 	// the unordered_map for store the statistic data of entitys
 	unordered_map<string, unsigned long long> umap;
+	// the (predicate, class) pairs counted in umap while building, to take out duplicate triples
+	std::map<std::pair<TYPE_PREDICATE_ID, TYPE_ENTITY_LITERAL_ID>, string> type_id_pairs;
 
 	// Trie *trie;
 
-- 
2.43.0


From d2aedd79d90f9727361e1fe4dce096bc31f10563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:48 +0000
Subject: [PATCH 052/107] fix: absolute IRIs without :// were appended to the
 base of a Turtle file

---
 Parser/TurtleParser.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Parser/TurtleParser.cpp b/Parser/TurtleParser.cpp
index 96f459c..52e8181 100644
--- a/Parser/TurtleParser.cpp
+++ b/Parser/TurtleParser.cpp
@@ -452,9 +452,14 @@ void TurtleParser::constructAbsoluteURI(std::string& uri)
    if (base.empty())
       return;
 
-   // Already absolute? XXX fix the check!
-   if (uri.find("://")<10)
-      return;
+   // Already absolute, i.e. has it a scheme?
+   size_t colon=uri.find(':');
+   if ((colon!=string::npos)&&(colon>0)&&isalpha(static_cast<unsigned char>(uri[0]))) {
+      size_t pos=1;
+      while ((pos<colon)&&(isalnum(static_cast<unsigned char>(uri[pos]))||(uri[pos]=='+')||(uri[pos]=='-')||(uri[pos]=='.'))) pos++;
+      if (pos==colon)
+         return;
+   }
 
    // Put the base in front
    uri=base+uri;
-- 
2.43.0


From faa7ccaaa926a3000f77ed2346adbd1ff976352f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:06 +0000
Subject: [PATCH 053/107] fix: names with a dot in Turtle files were cut there

---
 Parser/TurtleParser.cpp | 35 +++++++++++++++++++++++++----------
 Parser/TurtleParser.h   |  2 ++
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/Parser/TurtleParser.cpp b/Parser/TurtleParser.cpp
index 52e8181..2059849 100644
--- a/Parser/TurtleParser.cpp
+++ b/Parser/TurtleParser.cpp
@@ -44,9 +44,12 @@ bool TurtleParser::Lexer::doRead(char& c)
    // Read new characters
 {
    while (in) {
-      readBufferStart=readBuffer;
-      in.read(readBuffer,readBufferSize);
+      // Keep the last character, so that two characters can be unread
+      char last=(readBufferEnd>readBuffer)?readBufferEnd[-1]:0;
+      in.read(readBuffer+1,readBufferSize-1);
       if (!in.gcount()) return false;
+      readBuffer[0]=last;
+      readBufferStart=readBuffer+1;
       readBufferEnd=readBufferStart+in.gcount();
 
       if (readBufferStart<readBufferEnd) {
@@ -59,6 +62,24 @@ bool TurtleParser::Lexer::doRead(char& c)
 //---------------------------------------------------------------------------
 static bool issep(char c) { return (c==' ')||(c=='\t')||(c=='\n')||(c=='\r')||(c=='[')||(c==']')||(c=='(')||(c==')')||(c==',')||(c==';')||(c==':')||(c=='.'); }
 //---------------------------------------------------------------------------
+void TurtleParser::Lexer::lexName(std::string& token)
+   // Lex the rest of a name
+{
+   char c;
+   while (read(c)) {
+      if (c=='.') {
+         // Part of the name, unless the name ends here
+         if (!read(c)) { unread(); return; }
+         unread();
+         if (issep(c)||(c=='#')||(c=='<')||(c=='\"')) { unread(); return; }
+         token+='.';
+         continue;
+      }
+      if (issep(c)) { unread(); return; }
+      token+=c;
+   }
+}
+//---------------------------------------------------------------------------
 TurtleParser::Lexer::Token TurtleParser::Lexer::lexNumber(std::string& token,char c)
    // Lex a number
 {
@@ -133,10 +154,7 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::lexNumber(std::string& token,cha
    // REMARK: the string that start with number will throw exception: invalid Number   
    if (((c>='A')&&(c<='Z'))||((c>='a')&&(c<='z'))||(c=='_')) { // XXX unicode!
       token+=c;
-      while (read(c)) {
-         if (issep(c)) { unread(); break; }
-         token+=c;
-      }
+      lexName(token);
       return Name;
    } else {
       stringstream msg;
@@ -398,10 +416,7 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::lex(std::string& token)
          default:
             if (((c>='A')&&(c<='Z'))||((c>='a')&&(c<='z'))||(c=='_')) { // XXX unicode!
                token=c;
-               while (read(c)) {
-                  if (issep(c)) { unread(); break; }
-                  token+=c;
-               }
+               lexName(token);
                if (token=="a") return A;
                if (token=="true") return True;
                if (token=="false") return False;
diff --git a/Parser/TurtleParser.h b/Parser/TurtleParser.h
index 25d561f..0b3f5b2 100644
--- a/Parser/TurtleParser.h
+++ b/Parser/TurtleParser.h
@@ -89,6 +89,8 @@ class TurtleParser
       Token lexString(std::string& token,char c);
       /// Lex a URI
       Token lexURI(std::string& token,char c);
+      /// Lex the rest of a name
+      void lexName(std::string& token);
       /// Lex a number
       Token lexNumber(std::string& token,char c);
 
-- 
2.43.0


From a1ed1024d2a3b4f40869dcd44eac8d33227344b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:19 +0000
Subject: [PATCH 054/107] fix: address ranges were compared octet by octet, and
 bad lines of the lists threw

---
 Util/IPBlackList.cpp | 29 ++++++-----------------------
 Util/IPWhiteList.cpp | 32 +++++++-------------------------
 Util/Util.cpp        | 10 ++++++++++
 Util/Util.h          |  1 +
 4 files changed, 24 insertions(+), 48 deletions(-)

diff --git a/Util/IPBlackList.cpp b/Util/IPBlackList.cpp
index ff7dd4b..adc69f6 100644
--- a/Util/IPBlackList.cpp
+++ b/Util/IPBlackList.cpp
@@ -59,29 +59,12 @@ bool IPBlackList::Check(std::string ip){
         return false;
     for(std::set<string>::iterator it=this->ipList.begin(); it!=this->ipList.end(); ++it){
         // case for xxx.xxx.xxx.xxx-xxx.xxx.xxx.xxx
-        string test = *it;
-        if(test.find("-") != std::string::npos){
-            std::vector<std::string> fields;
-            std::vector<std::string> start;
-            std::vector<std::string> end;
-            std::vector<std::string> test_ip;
-            Util::split( test, "-", fields );
-            Util::split( fields[0], ".", start );
-            Util::split( fields[1], ".", end );
-            Util::split( ip, ".", test_ip );
-            bool res = false;
-            for(int i = 0; i < 4; i++){
-                int s = std::stoi(start[i]);
-                int e = std::stoi(end[i]);
-                int candidate = std::stoi(test_ip[i]);
-                if(!(s <= candidate && candidate <= e)){
-                    res = true;
-                    break;
-                }
-            }
-            if(!res)
-                return false;
-        }
+        size_t dash = it->find("-");
+        unsigned start, end, candidate;
+        // a closed interval of addresses; a line that is not one admits and denies nobody
+        if(dash != std::string::npos && Util::parse_ipv4(it->substr(0, dash), start) && Util::parse_ipv4(it->substr(dash + 1), end)
+            && Util::parse_ipv4(ip, candidate) && start <= candidate && candidate <= end)
+            return false;
     }
     return true;
 }
diff --git a/Util/IPWhiteList.cpp b/Util/IPWhiteList.cpp
index 5cb4c72..5470933 100644
--- a/Util/IPWhiteList.cpp
+++ b/Util/IPWhiteList.cpp
@@ -55,31 +55,13 @@ bool IPWhiteList::Check(std::string ip){
     else if(this->ipList.find(ip) != this->ipList.end())
         return true;
     for(std::set<string>::iterator it=this->ipList.begin(); it!=this->ipList.end(); ++it){
-        // cout << "case for xxx.xxx.xxx.xxx-xxx.xxx.xxx.xxx" << endl;
-        string test = *it;
-        if(test.find("-") != std::string::npos){
-            std::vector<std::string> fields;
-            std::vector<std::string> start;
-            std::vector<std::string> end;
-            std::vector<std::string> test_ip;
-            Util::split( test, "-", fields );
-            Util::split( fields[0], ".", start );
-            Util::split( fields[1], ".", end );
-            Util::split( ip, ".", test_ip );
-            bool res = true;
-            for(int i = 0; i < 4; i++){
-                int s = std::stoi(start[i]);
-                int e = std::stoi(end[i]);
-                int candidate = std::stoi(test_ip[i]);
-
-                if(!(s <= candidate && candidate <= e)){
-                    res = false;
-                    break;
-                }
-            }
-            if(res)
-                return true;
-        }
+        // case for xxx.xxx.xxx.xxx-xxx.xxx.xxx.xxx
+        size_t dash = it->find("-");
+        unsigned start, end, candidate;
+        // a closed interval of addresses; a line that is not one admits and denies nobody
+        if(dash != std::string::npos && Util::parse_ipv4(it->substr(0, dash), start) && Util::parse_ipv4(it->substr(dash + 1), end)
+            && Util::parse_ipv4(ip, candidate) && start <= candidate && candidate <= end)
+            return true;
     }
     return false;
 }
diff --git a/Util/Util.cpp b/Util/Util.cpp
index d0dcf63..f6087ce 100644
--- a/Util/Util.cpp
+++ b/Util/Util.cpp
@@ -2486,6 +2486,16 @@ Util::clear_angle_brackets(std::string _str)
     return _str;
 }
 
+bool
+Util::parse_ipv4(const string& str, unsigned& ip){
+    unsigned a, b, c, d;
+    char rest;
+    if (sscanf(str.c_str(), "%3u.%3u.%3u.%3u%c", &a, &b, &c, &d, &rest) != 4 || a > 255 || b > 255 || c > 255 || d > 255)
+        return false;
+    ip = a << 24 | b << 16 | c << 8 | d;
+    return true;
+}
+
 void
 Util::split(string str, string pattern, vector<string> &res){
     string::size_type pos = 0;
diff --git a/Util/Util.h b/Util/Util.h
index faca7f2..c49c3b7 100644
--- a/Util/Util.h
+++ b/Util/Util.h
@@ -464,6 +464,7 @@ public:
 	static char* a_trim(char *szOutput, const char * szInput);
 
 	static void split(const std::string str, const std::string pat, std::vector<std::string>& res);
+	static bool parse_ipv4(const std::string& str, unsigned& ip);
 	//NOTICE: this function must be called at the beginning of executing!
 	Util();
 	~Util();
-- 
2.43.0


From 4bc1c997a7e7f80f1f3a87f3bdb544126ce91d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:21 +0000
Subject: [PATCH 055/107] fix: JSON results took parts of literals for their
 datatype or language

---
 Query/ResultSet.cpp | 68 +++++++++------------------------------------
 1 file changed, 13 insertions(+), 55 deletions(-)

diff --git a/Query/ResultSet.cpp b/Query/ResultSet.cpp
index 51a5650..572073e 100644
--- a/Query/ResultSet.cpp
+++ b/Query/ResultSet.cpp
@@ -392,11 +392,6 @@ ResultSet::to_JSON()
 		this->resetStream();
 
 	const Bstr* bp = NULL;
-	// match ^^<*> string
-	regex dataTypePattern("\\^\\^<(\\S*?)[^>]*>.*?|<.*? />");
-	smatch matchResult;
-	string::const_iterator iterStart;
-	string::const_iterator iterEnd;
 	for(long long i = (!this->useStream ? this->output_offset : 0LL); i < this->ansNum; i++)
 	{
 		if (this->output_limit != -1 && i == this->output_offset + this->output_limit)
@@ -434,61 +429,24 @@ ResultSet::to_JSON()
 				}
 				else if (ans_str[0] == '"')
 				{
-					if (ans_str.find("\"^^<") == string::npos)
+					// neither a language tag nor a datatype contains a quote
+					size_t pos = ans_str.rfind('"');
+					string suffix = ans_str.substr(pos + 1);
+					if (suffix.compare(0, 3, "^^<") == 0)
 					{
-						if (ans_str.find("\"@") != string::npos)
-						{
-							//for language string
-							ans_type = "literal";
-							lang = ans_str.substr(ans_str.rfind("@")+1, ans_str.length());
-							ans_str = ans_str.substr(1, ans_str.rfind('"') - 1);
-						}
-						else
-						{
-							//no has type string
-							ans_type = "literal";
-							ans_str = ans_str.substr(1, ans_str.rfind('"') - 1);
-						}
+						ans_type = "typed-literal";
+						if (suffix[suffix.length() - 1] == '>')
+							data_type = suffix.substr(3, suffix.length() - 4);
+						else	// the entity value is not complete
+							data_type = "http://www.w3.org/2001/XMLSchema#string-not-complete";
 					}
 					else
 					{
-						
-						if (ans_str[ans_str.length() - 1] == '>')
-						{
-							ans_type = "typed-literal";
-							int pos = ans_str.find("\"^^<");
-							// string data_type = ans_str.substr(pos + 4, ans_str.length() - pos - 5);
-							iterStart = ans_str.begin();
-							iterEnd = ans_str.end();
-							while (regex_search(iterStart, iterEnd, matchResult, dataTypePattern))
-							{
-								data_type = matchResult[0];
-								break;
-							}
-							if (data_type.length() > 4)
-							{
-								// remove ^^<>
-								data_type = data_type.substr(3, data_type.length()-4);
-								if (data_type.find("^^<") != string::npos)
-								{
-									data_type = "http://www.w3.org/2001/XMLSchema#string-complete";
-								}
-							}
-							else
-							{
-								data_type = "http://www.w3.org/2001/XMLSchema#string-complete";
-							}
-							ans_str = ans_str.substr(1, pos-1);
-						}
-						else
-						{
-							// the entity value is not complete
-							ans_type = "typed-literal";
-							int pos = ans_str.find("\"^^<");
-							data_type = "http://www.w3.org/2001/XMLSchema#string-not-complete";
-							ans_str = ans_str.substr(1, pos-1);
-						}
+						ans_type = "literal";
+						if (suffix[0] == '@')
+							lang = suffix.substr(1);
 					}
+					ans_str = ans_str.substr(1, pos - 1);
 				}
 				else if (ans_str[0] == '\'') 
 				{
-- 
2.43.0


From e1e05e0274f17c97e33644da05b15c142da6ba5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:21 +0000
Subject: [PATCH 056/107] fix: literals coming out of a sub-select were escaped

---
 Query/ResultSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Query/ResultSet.cpp b/Query/ResultSet.cpp
index 572073e..25eb1b5 100644
--- a/Query/ResultSet.cpp
+++ b/Query/ResultSet.cpp
@@ -765,10 +765,10 @@ ResultSet::to_tempresult()
 			for(int j = 0; j < this->true_select_var_num; j++)
 			{
 				if (!this->useStream){
-					rp.str.push_back(Util::node2string(this->answer[i][j].c_str()));
+					rp.str.push_back(this->answer[i][j]);
                     //cout<<","<<this->answer[i][j].c_str();
 				}else{
-					rp.str.push_back(Util::node2string(bp[j].getStr()));
+					rp.str.push_back(bp[j].getStr());
                     //cout<<";"<<bp[j].getStr();
                 }
 			}
-- 
2.43.0


From 860ba521fc8b7bacbe8cbed86e5d6d0302cc0d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:34 +0000
Subject: [PATCH 057/107] fix: escapes and single or long quotes of literals in
 queries were not decoded

---
 Parser/QueryParser.cpp           | 92 +++++++++++++++++++++++++-------
 Parser/SPARQL/SPARQL.g4          |  6 +--
 Parser/SPARQL/SPARQLLexer.cpp    |  8 +--
 Parser/SPARQL/SPARQLLexer.interp |  2 +-
 4 files changed, 81 insertions(+), 27 deletions(-)

diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index 65126a2..978a8c9 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -10,6 +10,8 @@
 
 using namespace std;
 
+static string unescapeLiteral(const string &text);
+
 /**
 	Throw a runtime error when lexical and syntactic errors are detected in the query.
 */
@@ -359,20 +361,9 @@ void QueryParser::parseSelectAggregateFunction(SPARQLParser::ExpressionContext *
 			{
 				proj_var.aggregate_type = ProjectionVar::Groupconcat_type;
 				if (aggCtx->string())
-					proj_var.separator = aggCtx->string()->getText();
-				if (proj_var.separator[0] == '\'')
 				{
-					if (proj_var.separator.length() > 6 && proj_var.separator[1] == '\'' && proj_var.separator[2] == '\'')
-						proj_var.separator = proj_var.separator.substr(3, proj_var.separator.length() - 6);
-					else
-						proj_var.separator = proj_var.separator.substr(1, proj_var.separator.length() - 2);
-				}
-				else if (proj_var.separator[0] == '\"')
-				{
-					if (proj_var.separator.length() > 6 && proj_var.separator[1] == '\"' && proj_var.separator[2] == '\"')
-						proj_var.separator = proj_var.separator.substr(3, proj_var.separator.length() - 6);
-					else
-						proj_var.separator = proj_var.separator.substr(1, proj_var.separator.length() - 2);
+					proj_var.separator = unescapeLiteral(aggCtx->string()->getText());
+					proj_var.separator = proj_var.separator.substr(1, proj_var.separator.length() - 2);
 				}
 				else
 					proj_var.separator = " ";
@@ -667,7 +658,7 @@ void QueryParser::buildCompTree(antlr4::tree::ParseTree *root, int oper_pos, Com
 			curr_node.oprt = "";
 			// curr_node.lchild = NULL;
 			// curr_node.rchild = NULL;
-			curr_node.val = root->getText();
+			curr_node.val = unescapeLiteral(root->getText());
 		}
 		else if (((SPARQLParser::PrimaryexpressionContext *)root)->numericLiteral())
 		{
@@ -1362,6 +1353,67 @@ antlrcpp::Any QueryParser::visitOrderClause(SPARQLParser::OrderClauseContext *ct
 	return antlrcpp::Any();
 }
 
+/**
+	Helper function that finds the closing quote of a literal as written in a query.
+
+	@param text the literal, starting with its opening quote(s).
+	@param quotes set to the number of quotes that open and close the literal: 1 or 3.
+	@return position of the first closing quote, string::npos if there is none.
+*/
+static size_t findClosingQuote(const string &text, size_t &quotes)
+{
+	string quote(1, text[0]);
+	if (text.length() >= 6 && text[1] == text[0] && text[2] == text[0])
+		quote = string(3, text[0]);
+	quotes = quote.length();
+	for (size_t i = quotes; i < text.length(); i++)
+	{
+		if (text[i] == '\\')
+			i++;
+		else if (text.compare(i, quotes, quote) == 0)
+			return i;
+	}
+	return string::npos;
+}
+
+/**
+	Helper function that turns a literal as written in a query into the form that terms have in
+	the database: the value itself (escape sequences replaced) in double quotes, then the language
+	tag or datatype, if any. Texts that are no literal are returned as they are.
+
+	@param text a term's text.
+	@return string of the term.
+*/
+static string unescapeLiteral(const string &text)
+{
+	if (text.empty() || (text[0] != '"' && text[0] != '\''))
+		return text;
+	size_t quotes;
+	size_t end = findClosingQuote(text, quotes);
+	if (end == string::npos)
+		return text;
+	string ret = "\"";
+	for (size_t i = quotes; i < end; i++)
+	{
+		if (text[i] != '\\' || i + 1 == end)
+		{
+			ret += text[i];
+			continue;
+		}
+		i++;
+		switch (text[i])
+		{
+			case 't': ret += '\t'; break;
+			case 'b': ret += '\b'; break;
+			case 'n': ret += '\n'; break;
+			case 'r': ret += '\r'; break;
+			case 'f': ret += '\f'; break;
+			default: ret += text[i]; break;
+		}
+	}
+	return ret + "\"" + text.substr(end + quotes);
+}
+
 /**
 	Helper function that replaces prefixes in triples with their corresponding IRIs.
 
@@ -1372,8 +1424,8 @@ void QueryParser::replacePrefix(string &str)
 	if (str[0] == '\"')
 	{
 		// the datatype of a literal may be a prefixed name
-		size_t pos = str.rfind("\"^^");
-		if (pos != string::npos && pos + 3 < str.length() && str[pos + 3] != '<')
+		size_t pos = str.rfind('"');
+		if (str.compare(pos, 3, "\"^^") == 0 && pos + 3 < str.length() && str[pos + 3] != '<')
 		{
 			string datatype = str.substr(pos + 3);
 			replacePrefix(datatype);
@@ -1658,9 +1710,11 @@ string QueryParser::getNumeric(SPARQLParser::NumericLiteralContext *ctx)
 
 string QueryParser::getTextWithRange(antlr4::tree::ParseTree *ctx)
 {
-	string baseText = ctx->getText(), suffix, val;
-	size_t sufIdx = baseText.find("^^");
-	if (baseText.empty() || baseText[0] != '"' || sufIdx == string::npos)
+	string baseText = unescapeLiteral(ctx->getText()), suffix, val;
+	if (baseText.empty() || baseText[0] != '"')
+		return baseText;
+	size_t sufIdx = baseText.rfind('"') + 1;
+	if (baseText.compare(sufIdx, 2, "^^") != 0)
 		return baseText;
 	suffix = baseText.substr(sufIdx + 2);
 	val = baseText.substr(1, sufIdx - 2);
diff --git a/Parser/SPARQL/SPARQL.g4 b/Parser/SPARQL/SPARQL.g4
index 953c78a..d6d2a67 100644
--- a/Parser/SPARQL/SPARQL.g4
+++ b/Parser/SPARQL/SPARQL.g4
@@ -422,9 +422,9 @@ DOUBLE_NEGATIVE : '-' DOUBLE ;
 EXPONENT : [eE] [+-]? [0-9]+ ;
 STRING_LITERAL1 : '\'' ( ~('\u0027' | '\u005C' | '\u000A' | '\u000D') | ECHAR )* '\'' ;
 STRING_LITERAL2 : '"'  ( ~('\u0022' | '\u005C' | '\u000A' | '\u000D') | ECHAR )* '"' ;
-STRING_LITERAL_LONG1 : '\'\'\'' ( ( '\'' | '\'\'' )? ( [^'\\] | ECHAR ) )* '\'\'\'' ;
-STRING_LITERAL_LONG2 : '"""' ( ( '"' | '""' )? ( [^"\\] | ECHAR ) )* '"""' ;
-ECHAR : '\\' ('t' | 'b' | 'n' | 'r' | 'f' | '"' | '\'') ;
+STRING_LITERAL_LONG1 : '\'\'\'' ( ( '\'' | '\'\'' )? ( ~['\\] | ECHAR ) )* '\'\'\'' ;
+STRING_LITERAL_LONG2 : '"""' ( ( '"' | '""' )? ( ~["\\] | ECHAR ) )* '"""' ;
+ECHAR : '\\' ('t' | 'b' | 'n' | 'r' | 'f' | '\\' | '"' | '\'') ;
 NIL : '(' WS* ')' ;
 WS : (' ' | '\t' | '\r' | '\n') ->skip ;
 ANON : '[' WS* ']' ;
diff --git a/Parser/SPARQL/SPARQLLexer.cpp b/Parser/SPARQL/SPARQLLexer.cpp
index 726f414..12e0a9f 100644
--- a/Parser/SPARQL/SPARQLLexer.cpp
+++ b/Parser/SPARQL/SPARQLLexer.cpp
@@ -530,8 +530,8 @@ SPARQLLexer::Initializer::Initializer() {
     0x32, 0x3b, 0x43, 0x5c, 0x63, 0x7c, 0x4, 0x2, 0x47, 0x47, 0x67, 0x67, 
     0x4, 0x2, 0x2d, 0x2d, 0x2f, 0x2f, 0x6, 0x2, 0xc, 0xc, 0xf, 0xf, 0x29, 
     0x29, 0x5e, 0x5e, 0x6, 0x2, 0xc, 0xc, 0xf, 0xf, 0x24, 0x24, 0x5e, 0x5e, 
-    0x5, 0x2, 0x29, 0x29, 0x5e, 0x5e, 0x60, 0x60, 0x5, 0x2, 0x24, 0x24, 
-    0x5e, 0x5e, 0x60, 0x60, 0x9, 0x2, 0x24, 0x24, 0x29, 0x29, 0x64, 0x64, 
+    0x4, 0x2, 0x29, 0x29, 0x5e, 0x5e, 0x4, 0x2, 0x24, 0x24, 
+    0x5e, 0x5e, 0xa, 0x2, 0x24, 0x24, 0x29, 0x29, 0x5e, 0x5e, 0x64, 0x64, 
     0x68, 0x68, 0x70, 0x70, 0x74, 0x74, 0x76, 0x76, 0x5, 0x2, 0xb, 0xc, 
     0xf, 0xf, 0x22, 0x22, 0x6, 0x2, 0x32, 0x3b, 0xb9, 0xb9, 0x302, 0x371, 
     0x2041, 0x2042, 0x7, 0x2, 0x2f, 0x2f, 0x32, 0x3b, 0xb9, 0xb9, 0x302, 
@@ -1418,7 +1418,7 @@ SPARQLLexer::Initializer::Initializer() {
     0x7, 0x29, 0x2, 0x2, 0x6df, 0x6e1, 0x7, 0x29, 0x2, 0x2, 0x6e0, 0x6dd, 
     0x3, 0x2, 0x2, 0x2, 0x6e0, 0x6de, 0x3, 0x2, 0x2, 0x2, 0x6e0, 0x6e1, 
     0x3, 0x2, 0x2, 0x2, 0x6e1, 0x6e4, 0x3, 0x2, 0x2, 0x2, 0x6e2, 0x6e5, 
-    0x9, 0xa, 0x2, 0x2, 0x6e3, 0x6e5, 0x5, 0x183, 0xc2, 0x2, 0x6e4, 0x6e2, 
+    0xa, 0xa, 0x2, 0x2, 0x6e3, 0x6e5, 0x5, 0x183, 0xc2, 0x2, 0x6e4, 0x6e2, 
     0x3, 0x2, 0x2, 0x2, 0x6e4, 0x6e3, 0x3, 0x2, 0x2, 0x2, 0x6e5, 0x6e7, 
     0x3, 0x2, 0x2, 0x2, 0x6e6, 0x6e0, 0x3, 0x2, 0x2, 0x2, 0x6e7, 0x6ea, 
     0x3, 0x2, 0x2, 0x2, 0x6e8, 0x6e6, 0x3, 0x2, 0x2, 0x2, 0x6e8, 0x6e9, 
@@ -1431,7 +1431,7 @@ SPARQLLexer::Initializer::Initializer() {
     0x7, 0x24, 0x2, 0x2, 0x6f5, 0x6f7, 0x7, 0x24, 0x2, 0x2, 0x6f6, 0x6f3, 
     0x3, 0x2, 0x2, 0x2, 0x6f6, 0x6f4, 0x3, 0x2, 0x2, 0x2, 0x6f6, 0x6f7, 
     0x3, 0x2, 0x2, 0x2, 0x6f7, 0x6fa, 0x3, 0x2, 0x2, 0x2, 0x6f8, 0x6fb, 
-    0x9, 0xb, 0x2, 0x2, 0x6f9, 0x6fb, 0x5, 0x183, 0xc2, 0x2, 0x6fa, 0x6f8, 
+    0xa, 0xb, 0x2, 0x2, 0x6f9, 0x6fb, 0x5, 0x183, 0xc2, 0x2, 0x6fa, 0x6f8, 
     0x3, 0x2, 0x2, 0x2, 0x6fa, 0x6f9, 0x3, 0x2, 0x2, 0x2, 0x6fb, 0x6fd, 
     0x3, 0x2, 0x2, 0x2, 0x6fc, 0x6f6, 0x3, 0x2, 0x2, 0x2, 0x6fd, 0x700, 
     0x3, 0x2, 0x2, 0x2, 0x6fe, 0x6fc, 0x3, 0x2, 0x2, 0x2, 0x6fe, 0x6ff, 
diff --git a/Parser/SPARQL/SPARQLLexer.interp b/Parser/SPARQL/SPARQLLexer.interp
index e3b15e2..6d306b3 100644
--- a/Parser/SPARQL/SPARQLLexer.interp
+++ b/Parser/SPARQL/SPARQLLexer.interp
@@ -661,4 +661,4 @@ mode names:
 DEFAULT_MODE
 
 atn:
-[3, 24715, 42794, 33075, 47597, 16764, 15335, 30598, 22884, 2, 209, 1950, 8, 1, 4, 2, 9, 2, 4, 3, 9, 3, 4, 4, 9, 4, 4, 5, 9, 5, 4, 6, 9, 6, 4, 7, 9, 7, 4, 8, 9, 8, 4, 9, 9, 9, 4, 10, 9, 10, 4, 11, 9, 11, 4, 12, 9, 12, 4, 13, 9, 13, 4, 14, 9, 14, 4, 15, 9, 15, 4, 16, 9, 16, 4, 17, 9, 17, 4, 18, 9, 18, 4, 19, 9, 19, 4, 20, 9, 20, 4, 21, 9, 21, 4, 22, 9, 22, 4, 23, 9, 23, 4, 24, 9, 24, 4, 25, 9, 25, 4, 26, 9, 26, 4, 27, 9, 27, 4, 28, 9, 28, 4, 29, 9, 29, 4, 30, 9, 30, 4, 31, 9, 31, 4, 32, 9, 32, 4, 33, 9, 33, 4, 34, 9, 34, 4, 35, 9, 35, 4, 36, 9, 36, 4, 37, 9, 37, 4, 38, 9, 38, 4, 39, 9, 39, 4, 40, 9, 40, 4, 41, 9, 41, 4, 42, 9, 42, 4, 43, 9, 43, 4, 44, 9, 44, 4, 45, 9, 45, 4, 46, 9, 46, 4, 47, 9, 47, 4, 48, 9, 48, 4, 49, 9, 49, 4, 50, 9, 50, 4, 51, 9, 51, 4, 52, 9, 52, 4, 53, 9, 53, 4, 54, 9, 54, 4, 55, 9, 55, 4, 56, 9, 56, 4, 57, 9, 57, 4, 58, 9, 58, 4, 59, 9, 59, 4, 60, 9, 60, 4, 61, 9, 61, 4, 62, 9, 62, 4, 63, 9, 63, 4, 64, 9, 64, 4, 65, 9, 65, 4, 66, 9, 66, 4, 67, 9, 67, 4, 68, 9, 68, 4, 69, 9, 69, 4, 70, 9, 70, 4, 71, 9, 71, 4, 72, 9, 72, 4, 73, 9, 73, 4, 74, 9, 74, 4, 75, 9, 75, 4, 76, 9, 76, 4, 77, 9, 77, 4, 78, 9, 78, 4, 79, 9, 79, 4, 80, 9, 80, 4, 81, 9, 81, 4, 82, 9, 82, 4, 83, 9, 83, 4, 84, 9, 84, 4, 85, 9, 85, 4, 86, 9, 86, 4, 87, 9, 87, 4, 88, 9, 88, 4, 89, 9, 89, 4, 90, 9, 90, 4, 91, 9, 91, 4, 92, 9, 92, 4, 93, 9, 93, 4, 94, 9, 94, 4, 95, 9, 95, 4, 96, 9, 96, 4, 97, 9, 97, 4, 98, 9, 98, 4, 99, 9, 99, 4, 100, 9, 100, 4, 101, 9, 101, 4, 102, 9, 102, 4, 103, 9, 103, 4, 104, 9, 104, 4, 105, 9, 105, 4, 106, 9, 106, 4, 107, 9, 107, 4, 108, 9, 108, 4, 109, 9, 109, 4, 110, 9, 110, 4, 111, 9, 111, 4, 112, 9, 112, 4, 113, 9, 113, 4, 114, 9, 114, 4, 115, 9, 115, 4, 116, 9, 116, 4, 117, 9, 117, 4, 118, 9, 118, 4, 119, 9, 119, 4, 120, 9, 120, 4, 121, 9, 121, 4, 122, 9, 122, 4, 123, 9, 123, 4, 124, 9, 124, 4, 125, 9, 125, 4, 126, 9, 126, 4, 127, 9, 127, 4, 128, 9, 128, 4, 129, 9, 129, 4, 130, 9, 130, 4, 131, 9, 131, 4, 132, 9, 132, 4, 133, 9, 133, 4, 134, 9, 134, 4, 135, 9, 135, 4, 136, 9, 136, 4, 137, 9, 137, 4, 138, 9, 138, 4, 139, 9, 139, 4, 140, 9, 140, 4, 141, 9, 141, 4, 142, 9, 142, 4, 143, 9, 143, 4, 144, 9, 144, 4, 145, 9, 145, 4, 146, 9, 146, 4, 147, 9, 147, 4, 148, 9, 148, 4, 149, 9, 149, 4, 150, 9, 150, 4, 151, 9, 151, 4, 152, 9, 152, 4, 153, 9, 153, 4, 154, 9, 154, 4, 155, 9, 155, 4, 156, 9, 156, 4, 157, 9, 157, 4, 158, 9, 158, 4, 159, 9, 159, 4, 160, 9, 160, 4, 161, 9, 161, 4, 162, 9, 162, 4, 163, 9, 163, 4, 164, 9, 164, 4, 165, 9, 165, 4, 166, 9, 166, 4, 167, 9, 167, 4, 168, 9, 168, 4, 169, 9, 169, 4, 170, 9, 170, 4, 171, 9, 171, 4, 172, 9, 172, 4, 173, 9, 173, 4, 174, 9, 174, 4, 175, 9, 175, 4, 176, 9, 176, 4, 177, 9, 177, 4, 178, 9, 178, 4, 179, 9, 179, 4, 180, 9, 180, 4, 181, 9, 181, 4, 182, 9, 182, 4, 183, 9, 183, 4, 184, 9, 184, 4, 185, 9, 185, 4, 186, 9, 186, 4, 187, 9, 187, 4, 188, 9, 188, 4, 189, 9, 189, 4, 190, 9, 190, 4, 191, 9, 191, 4, 192, 9, 192, 4, 193, 9, 193, 4, 194, 9, 194, 4, 195, 9, 195, 4, 196, 9, 196, 4, 197, 9, 197, 4, 198, 9, 198, 4, 199, 9, 199, 4, 200, 9, 200, 4, 201, 9, 201, 4, 202, 9, 202, 4, 203, 9, 203, 4, 204, 9, 204, 4, 205, 9, 205, 4, 206, 9, 206, 4, 207, 9, 207, 4, 208, 9, 208, 4, 209, 9, 209, 4, 210, 9, 210, 4, 211, 9, 211, 4, 212, 9, 212, 4, 213, 9, 213, 4, 214, 9, 214, 4, 215, 9, 215, 4, 216, 9, 216, 4, 217, 9, 217, 4, 218, 9, 218, 4, 219, 9, 219, 4, 220, 9, 220, 4, 221, 9, 221, 4, 222, 9, 222, 4, 223, 9, 223, 4, 224, 9, 224, 4, 225, 9, 225, 4, 226, 9, 226, 4, 227, 9, 227, 4, 228, 9, 228, 4, 229, 9, 229, 4, 230, 9, 230, 4, 231, 9, 231, 4, 232, 9, 232, 4, 233, 9, 233, 4, 234, 9, 234, 3, 2, 3, 2, 3, 3, 3, 3, 3, 4, 3, 4, 3, 5, 3, 5, 3, 6, 3, 6, 3, 7, 3, 7, 3, 8, 3, 8, 3, 9, 3, 9, 3, 10, 3, 10, 3, 11, 3, 11, 3, 12, 3, 12, 3, 13, 3, 13, 3, 14, 3, 14, 3, 15, 3, 15, 3, 16, 3, 16, 3, 17, 3, 17, 3, 18, 3, 18, 3, 19, 3, 19, 3, 19, 3, 20, 3, 20, 3, 20, 3, 21, 3, 21, 3, 22, 3, 22, 3, 22, 3, 23, 3, 23, 3, 24, 3, 24, 3, 25, 3, 25, 3, 25, 3, 26, 3, 26, 3, 26, 3, 27, 3, 27, 3, 28, 3, 28, 3, 28, 3, 29, 3, 29, 3, 29, 3, 29, 3, 29, 3, 30, 3, 30, 3, 30, 3, 30, 3, 30, 3, 30, 3, 31, 3, 31, 3, 31, 3, 31, 3, 32, 3, 32, 3, 32, 3, 32, 3, 32, 3, 33, 3, 33, 3, 33, 3, 33, 3, 33, 3, 33, 3, 34, 3, 34, 3, 34, 3, 35, 3, 35, 3, 35, 3, 35, 3, 36, 3, 36, 3, 36, 3, 36, 3, 37, 3, 37, 3, 37, 3, 37, 3, 37, 3, 37, 3, 37, 3, 38, 3, 38, 3, 38, 3, 39, 3, 39, 3, 39, 3, 39, 3, 39, 3, 39, 3, 40, 3, 40, 3, 40, 3, 40, 3, 40, 3, 40, 3, 40, 3, 41, 3, 41, 3, 41, 3, 41, 3, 41, 3, 41, 3, 42, 3, 42, 3, 42, 3, 42, 3, 42, 3, 42, 3, 42, 3, 42, 3, 43, 3, 43, 3, 43, 3, 43, 3, 43, 3, 43, 3, 43, 3, 44, 3, 44, 3, 44, 3, 44, 3, 44, 3, 44, 3, 45, 3, 45, 3, 45, 3, 46, 3, 46, 3, 46, 3, 46, 3, 46, 3, 47, 3, 47, 3, 47, 3, 47, 3, 47, 3, 48, 3, 48, 3, 48, 3, 48, 3, 48, 3, 48, 3, 49, 3, 49, 3, 49, 3, 49, 3, 49, 3, 49, 3, 49, 3, 49, 3, 49, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 51, 3, 51, 3, 51, 3, 51, 3, 51, 3, 51, 3, 51, 3, 51, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 53, 3, 53, 3, 53, 3, 53, 3, 54, 3, 54, 3, 54, 3, 54, 3, 54, 3, 54, 3, 55, 3, 55, 3, 55, 3, 55, 3, 55, 3, 55, 3, 56, 3, 56, 3, 56, 3, 56, 3, 56, 3, 56, 3, 56, 3, 56, 3, 56, 3, 57, 3, 57, 3, 57, 3, 57, 3, 58, 3, 58, 3, 58, 3, 58, 3, 58, 3, 58, 3, 58, 3, 58, 3, 59, 3, 59, 3, 59, 3, 59, 3, 59, 3, 60, 3, 60, 3, 60, 3, 60, 3, 60, 3, 61, 3, 61, 3, 61, 3, 61, 3, 61, 3, 61, 3, 62, 3, 62, 3, 62, 3, 62, 3, 62, 3, 63, 3, 63, 3, 63, 3, 64, 3, 64, 3, 64, 3, 64, 3, 65, 3, 65, 3, 65, 3, 65, 3, 66, 3, 66, 3, 66, 3, 66, 3, 66, 3, 67, 3, 67, 3, 67, 3, 68, 3, 68, 3, 68, 3, 68, 3, 68, 3, 69, 3, 69, 3, 69, 3, 69, 3, 69, 3, 70, 3, 70, 3, 70, 3, 70, 3, 70, 3, 71, 3, 71, 3, 71, 3, 71, 3, 71, 3, 71, 3, 72, 3, 72, 3, 72, 3, 72, 3, 72, 3, 72, 3, 73, 3, 73, 3, 73, 3, 73, 3, 74, 3, 74, 3, 74, 3, 74, 3, 74, 3, 74, 3, 74, 3, 75, 3, 75, 3, 75, 3, 75, 3, 75, 3, 75, 3, 76, 3, 76, 3, 76, 3, 76, 3, 76, 3, 76, 3, 76, 3, 76, 3, 77, 3, 77, 3, 77, 3, 77, 3, 77, 3, 77, 3, 78, 3, 78, 3, 78, 3, 78, 3, 78, 3, 78, 3, 78, 3, 78, 3, 78, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 80, 3, 80, 3, 80, 3, 80, 3, 81, 3, 81, 3, 81, 3, 81, 3, 81, 3, 82, 3, 82, 3, 82, 3, 82, 3, 82, 3, 82, 3, 82, 3, 83, 3, 83, 3, 83, 3, 83, 3, 83, 3, 83, 3, 83, 3, 83, 3, 83, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 85, 3, 85, 3, 85, 3, 85, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 87, 3, 87, 3, 87, 3, 87, 3, 87, 3, 87, 3, 87, 3, 87, 3, 87, 3, 88, 3, 88, 3, 88, 3, 88, 3, 88, 3, 88, 3, 88, 3, 89, 3, 89, 3, 89, 3, 89, 3, 89, 3, 90, 3, 90, 3, 90, 3, 90, 3, 90, 3, 90, 3, 90, 3, 91, 3, 91, 3, 91, 3, 91, 3, 91, 3, 92, 3, 92, 3, 92, 3, 92, 3, 93, 3, 93, 3, 93, 3, 93, 3, 93, 3, 93, 3, 93, 3, 94, 3, 94, 3, 94, 3, 94, 3, 94, 3, 94, 3, 95, 3, 95, 3, 95, 3, 95, 3, 96, 3, 96, 3, 96, 3, 96, 3, 96, 3, 96, 3, 96, 3, 96, 3, 97, 3, 97, 3, 97, 3, 97, 3, 97, 3, 97, 3, 97, 3, 98, 3, 98, 3, 98, 3, 98, 3, 98, 3, 98, 3, 98, 3, 98, 3, 98, 3, 99, 3, 99, 3, 99, 3, 99, 3, 99, 3, 99, 3, 99, 3, 100, 3, 100, 3, 100, 3, 100, 3, 100, 3, 100, 3, 100, 3, 100, 3, 101, 3, 101, 3, 101, 3, 101, 3, 101, 3, 101, 3, 101, 3, 101, 3, 102, 3, 102, 3, 102, 3, 102, 3, 102, 3, 102, 3, 103, 3, 103, 3, 103, 3, 103, 3, 103, 3, 103, 3, 103, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 105, 3, 105, 3, 105, 3, 105, 3, 106, 3, 106, 3, 106, 3, 106, 3, 106, 3, 106, 3, 106, 3, 107, 3, 107, 3, 107, 3, 107, 3, 107, 3, 107, 3, 107, 3, 107, 3, 108, 3, 108, 3, 108, 3, 108, 3, 108, 3, 108, 3, 109, 3, 109, 3, 109, 3, 109, 3, 109, 3, 109, 3, 110, 3, 110, 3, 110, 3, 110, 3, 110, 3, 110, 3, 111, 3, 111, 3, 111, 3, 111, 3, 111, 3, 111, 3, 111, 3, 111, 3, 112, 3, 112, 3, 112, 3, 112, 3, 113, 3, 113, 3, 113, 3, 113, 3, 113, 3, 113, 3, 113, 3, 113, 3, 113, 3, 114, 3, 114, 3, 114, 3, 114, 3, 114, 3, 114, 3, 114, 3, 115, 3, 115, 3, 115, 3, 115, 3, 115, 3, 115, 3, 116, 3, 116, 3, 116, 3, 116, 3, 117, 3, 117, 3, 117, 3, 117, 3, 117, 3, 117, 3, 117, 3, 117, 3, 118, 3, 118, 3, 118, 3, 118, 3, 118, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 120, 3, 120, 3, 120, 3, 120, 3, 120, 3, 120, 3, 121, 3, 121, 3, 121, 3, 122, 3, 122, 3, 122, 3, 122, 3, 122, 3, 122, 3, 123, 3, 123, 3, 123, 3, 123, 3, 123, 3, 124, 3, 124, 3, 124, 3, 124, 3, 124, 3, 124, 3, 125, 3, 125, 3, 125, 3, 125, 3, 125, 3, 125, 3, 126, 3, 126, 3, 126, 3, 126, 3, 126, 3, 126, 3, 126, 3, 126, 3, 126, 3, 127, 3, 127, 3, 127, 3, 127, 3, 127, 3, 127, 3, 127, 3, 128, 3, 128, 3, 128, 3, 128, 3, 128, 3, 128, 3, 129, 3, 129, 3, 129, 3, 129, 3, 129, 3, 129, 3, 129, 3, 129, 3, 129, 3, 130, 3, 130, 3, 130, 3, 130, 3, 130, 3, 130, 3, 131, 3, 131, 3, 131, 3, 131, 3, 131, 3, 131, 3, 131, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 141, 3, 141, 3, 141, 3, 141, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 144, 3, 144, 3, 144, 3, 144, 3, 144, 3, 144, 3, 144, 3, 144, 3, 144, 3, 145, 3, 145, 3, 145, 3, 146, 3, 146, 3, 146, 3, 146, 3, 146, 3, 146, 3, 147, 3, 147, 3, 147, 3, 147, 3, 147, 3, 147, 3, 147, 3, 147, 3, 148, 3, 148, 3, 148, 3, 148, 3, 149, 3, 149, 3, 149, 3, 149, 3, 149, 3, 150, 3, 150, 3, 150, 3, 150, 3, 150, 3, 150, 3, 150, 3, 150, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 152, 3, 152, 3, 152, 3, 152, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 156, 3, 156, 3, 156, 3, 156, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 160, 3, 160, 3, 160, 3, 160, 3, 160, 3, 160, 3, 160, 3, 160, 3, 161, 3, 161, 3, 161, 3, 161, 3, 161, 3, 162, 3, 162, 3, 162, 3, 162, 3, 162, 3, 162, 3, 162, 3, 162, 3, 162, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 167, 3, 167, 3, 167, 3, 167, 3, 168, 3, 168, 3, 168, 3, 168, 3, 168, 3, 169, 3, 169, 3, 169, 3, 169, 3, 169, 3, 169, 3, 169, 3, 170, 3, 170, 3, 170, 3, 170, 3, 170, 3, 170, 3, 170, 3, 171, 3, 171, 3, 171, 3, 171, 3, 171, 3, 171, 3, 171, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 173, 3, 173, 7, 173, 1607, 10, 173, 12, 173, 14, 173, 1610, 11, 173, 3, 173, 3, 173, 3, 174, 5, 174, 1615, 10, 174, 3, 174, 3, 174, 3, 175, 3, 175, 3, 175, 3, 176, 3, 176, 3, 176, 3, 176, 3, 176, 5, 176, 1627, 10, 176, 3, 176, 3, 176, 7, 176, 1631, 10, 176, 12, 176, 14, 176, 1634, 11, 176, 3, 176, 5, 176, 1637, 10, 176, 3, 177, 3, 177, 3, 177, 3, 178, 3, 178, 3, 178, 3, 179, 3, 179, 6, 179, 1647, 10, 179, 13, 179, 14, 179, 1648, 3, 179, 3, 179, 6, 179, 1653, 10, 179, 13, 179, 14, 179, 1654, 7, 179, 1657, 10, 179, 12, 179, 14, 179, 1660, 11, 179, 3, 180, 6, 180, 1663, 10, 180, 13, 180, 14, 180, 1664, 3, 181, 7, 181, 1668, 10, 181, 12, 181, 14, 181, 1671, 11, 181, 3, 181, 3, 181, 6, 181, 1675, 10, 181, 13, 181, 14, 181, 1676, 3, 182, 6, 182, 1680, 10, 182, 13, 182, 14, 182, 1681, 3, 182, 3, 182, 7, 182, 1686, 10, 182, 12, 182, 14, 182, 1689, 11, 182, 3, 182, 3, 182, 3, 182, 6, 182, 1694, 10, 182, 13, 182, 14, 182, 1695, 3, 182, 3, 182, 6, 182, 1700, 10, 182, 13, 182, 14, 182, 1701, 3, 182, 5, 182, 1705, 10, 182, 3, 183, 3, 183, 3, 183, 3, 184, 3, 184, 3, 184, 3, 185, 3, 185, 3, 185, 3, 186, 3, 186, 3, 186, 3, 187, 3, 187, 3, 187, 3, 188, 3, 188, 3, 188, 3, 189, 3, 189, 5, 189, 1727, 10, 189, 3, 189, 6, 189, 1730, 10, 189, 13, 189, 14, 189, 1731, 3, 190, 3, 190, 3, 190, 7, 190, 1737, 10, 190, 12, 190, 14, 190, 1740, 11, 190, 3, 190, 3, 190, 3, 191, 3, 191, 3, 191, 7, 191, 1747, 10, 191, 12, 191, 14, 191, 1750, 11, 191, 3, 191, 3, 191, 3, 192, 3, 192, 3, 192, 3, 192, 3, 192, 3, 192, 3, 192, 5, 192, 1761, 10, 192, 3, 192, 3, 192, 5, 192, 1765, 10, 192, 7, 192, 1767, 10, 192, 12, 192, 14, 192, 1770, 11, 192, 3, 192, 3, 192, 3, 192, 3, 192, 3, 193, 3, 193, 3, 193, 3, 193, 3, 193, 3, 193, 3, 193, 5, 193, 1783, 10, 193, 3, 193, 3, 193, 5, 193, 1787, 10, 193, 7, 193, 1789, 10, 193, 12, 193, 14, 193, 1792, 11, 193, 3, 193, 3, 193, 3, 193, 3, 193, 3, 194, 3, 194, 3, 194, 3, 195, 3, 195, 7, 195, 1803, 10, 195, 12, 195, 14, 195, 1806, 11, 195, 3, 195, 3, 195, 3, 196, 3, 196, 3, 196, 3, 196, 3, 197, 3, 197, 7, 197, 1816, 10, 197, 12, 197, 14, 197, 1819, 11, 197, 3, 197, 3, 197, 3, 198, 5, 198, 1824, 10, 198, 3, 199, 3, 199, 5, 199, 1828, 10, 199, 3, 200, 3, 200, 5, 200, 1832, 10, 200, 3, 200, 3, 200, 7, 200, 1836, 10, 200, 12, 200, 14, 200, 1839, 11, 200, 3, 201, 3, 201, 5, 201, 1843, 10, 201, 3, 202, 3, 202, 3, 202, 7, 202, 1848, 10, 202, 12, 202, 14, 202, 1851, 11, 202, 3, 202, 5, 202, 1854, 10, 202, 3, 203, 3, 203, 3, 203, 5, 203, 1859, 10, 203, 3, 203, 3, 203, 3, 203, 7, 203, 1864, 10, 203, 12, 203, 14, 203, 1867, 11, 203, 3, 203, 3, 203, 3, 203, 5, 203, 1872, 10, 203, 5, 203, 1874, 10, 203, 3, 204, 3, 204, 5, 204, 1878, 10, 204, 3, 205, 3, 205, 3, 205, 3, 205, 3, 206, 5, 206, 1885, 10, 206, 3, 207, 3, 207, 3, 207, 3, 208, 3, 208, 7, 208, 1892, 10, 208, 12, 208, 14, 208, 1895, 11, 208, 3, 208, 3, 208, 3, 209, 3, 209, 3, 210, 3, 210, 3, 211, 3, 211, 3, 212, 3, 212, 3, 213, 3, 213, 3, 214, 3, 214, 3, 215, 3, 215, 3, 216, 3, 216, 3, 217, 3, 217, 3, 218, 3, 218, 3, 219, 3, 219, 3, 220, 3, 220, 3, 221, 3, 221, 3, 222, 3, 222, 3, 223, 3, 223, 3, 224, 3, 224, 3, 225, 3, 225, 3, 226, 3, 226, 3, 227, 3, 227, 3, 228, 3, 228, 3, 229, 3, 229, 3, 230, 3, 230, 3, 231, 3, 231, 3, 232, 3, 232, 3, 233, 3, 233, 3, 234, 3, 234, 2, 2, 235, 3, 3, 5, 4, 7, 5, 9, 6, 11, 7, 13, 8, 15, 9, 17, 10, 19, 11, 21, 12, 23, 13, 25, 14, 27, 15, 29, 16, 31, 17, 33, 18, 35, 19, 37, 20, 39, 21, 41, 22, 43, 23, 45, 24, 47, 25, 49, 26, 51, 27, 53, 28, 55, 29, 57, 30, 59, 31, 61, 32, 63, 33, 65, 34, 67, 35, 69, 36, 71, 37, 73, 38, 75, 39, 77, 40, 79, 41, 81, 42, 83, 43, 85, 44, 87, 45, 89, 46, 91, 47, 93, 48, 95, 49, 97, 50, 99, 51, 101, 52, 103, 53, 105, 54, 107, 55, 109, 56, 111, 57, 113, 58, 115, 59, 117, 60, 119, 61, 121, 62, 123, 63, 125, 64, 127, 65, 129, 66, 131, 67, 133, 68, 135, 69, 137, 70, 139, 71, 141, 72, 143, 73, 145, 74, 147, 75, 149, 76, 151, 77, 153, 78, 155, 79, 157, 80, 159, 81, 161, 82, 163, 83, 165, 84, 167, 85, 169, 86, 171, 87, 173, 88, 175, 89, 177, 90, 179, 91, 181, 92, 183, 93, 185, 94, 187, 95, 189, 96, 191, 97, 193, 98, 195, 99, 197, 100, 199, 101, 201, 102, 203, 103, 205, 104, 207, 105, 209, 106, 211, 107, 213, 108, 215, 109, 217, 110, 219, 111, 221, 112, 223, 113, 225, 114, 227, 115, 229, 116, 231, 117, 233, 118, 235, 119, 237, 120, 239, 121, 241, 122, 243, 123, 245, 124, 247, 125, 249, 126, 251, 127, 253, 128, 255, 129, 257, 130, 259, 131, 261, 132, 263, 133, 265, 134, 267, 135, 269, 136, 271, 137, 273, 138, 275, 139, 277, 140, 279, 141, 281, 142, 283, 143, 285, 144, 287, 145, 289, 146, 291, 147, 293, 148, 295, 149, 297, 150, 299, 151, 301, 152, 303, 153, 305, 154, 307, 155, 309, 156, 311, 157, 313, 158, 315, 159, 317, 160, 319, 161, 321, 162, 323, 163, 325, 164, 327, 165, 329, 166, 331, 167, 333, 168, 335, 169, 337, 170, 339, 171, 341, 172, 343, 173, 345, 174, 347, 175, 349, 176, 351, 177, 353, 178, 355, 179, 357, 180, 359, 181, 361, 182, 363, 183, 365, 184, 367, 185, 369, 186, 371, 187, 373, 188, 375, 189, 377, 190, 379, 191, 381, 192, 383, 193, 385, 194, 387, 195, 389, 196, 391, 197, 393, 198, 395, 199, 397, 200, 399, 201, 401, 202, 403, 203, 405, 204, 407, 205, 409, 206, 411, 207, 413, 208, 415, 209, 417, 2, 419, 2, 421, 2, 423, 2, 425, 2, 427, 2, 429, 2, 431, 2, 433, 2, 435, 2, 437, 2, 439, 2, 441, 2, 443, 2, 445, 2, 447, 2, 449, 2, 451, 2, 453, 2, 455, 2, 457, 2, 459, 2, 461, 2, 463, 2, 465, 2, 467, 2, 3, 2, 45, 10, 2, 2, 34, 36, 36, 62, 62, 64, 64, 94, 94, 96, 96, 98, 98, 125, 127, 3, 2, 50, 59, 4, 2, 67, 92, 99, 124, 5, 2, 50, 59, 67, 92, 99, 124, 4, 2, 71, 71, 103, 103, 4, 2, 45, 45, 47, 47, 6, 2, 12, 12, 15, 15, 41, 41, 94, 94, 6, 2, 12, 12, 15, 15, 36, 36, 94, 94, 5, 2, 41, 41, 94, 94, 96, 96, 5, 2, 36, 36, 94, 94, 96, 96, 9, 2, 36, 36, 41, 41, 100, 100, 104, 104, 112, 112, 116, 116, 118, 118, 5, 2, 11, 12, 15, 15, 34, 34, 6, 2, 50, 59, 185, 185, 770, 881, 8257, 8258, 7, 2, 47, 47, 50, 59, 185, 185, 770, 881, 8257, 8258, 4, 2, 48, 48, 60, 60, 5, 2, 50, 59, 67, 72, 99, 104, 9, 2, 35, 35, 37, 49, 61, 61, 63, 63, 65, 66, 97, 97, 128, 128, 4, 2, 12, 12, 15, 15, 4, 2, 67, 67, 99, 99, 4, 2, 68, 68, 100, 100, 4, 2, 69, 69, 101, 101, 4, 2, 70, 70, 102, 102, 4, 2, 72, 72, 104, 104, 4, 2, 73, 73, 105, 105, 4, 2, 74, 74, 106, 106, 4, 2, 75, 75, 107, 107, 4, 2, 76, 76, 108, 108, 4, 2, 77, 77, 109, 109, 4, 2, 78, 78, 110, 110, 4, 2, 79, 79, 111, 111, 4, 2, 80, 80, 112, 112, 4, 2, 81, 81, 113, 113, 4, 2, 82, 82, 114, 114, 4, 2, 83, 83, 115, 115, 4, 2, 84, 84, 116, 116, 4, 2, 85, 85, 117, 117, 4, 2, 86, 86, 118, 118, 4, 2, 87, 87, 119, 119, 4, 2, 88, 88, 120, 120, 4, 2, 89, 89, 121, 121, 4, 2, 90, 90, 122, 122, 4, 2, 91, 91, 123, 123, 4, 2, 92, 92, 124, 124, 3, 16, 2, 67, 2, 92, 2, 99, 2, 124, 2, 194, 2, 216, 2, 218, 2, 248, 2, 250, 2, 769, 2, 882, 2, 895, 2, 897, 2, 8193, 2, 8206, 2, 8207, 2, 8306, 2, 8593, 2, 11266, 2, 12273, 2, 12291, 2, 55297, 2, 63746, 2, 64977, 2, 65010, 2, 65535, 2, 2, 3, 1, 16, 1975, 2, 3, 3, 2, 2, 2, 2, 5, 3, 2, 2, 2, 2, 7, 3, 2, 2, 2, 2, 9, 3, 2, 2, 2, 2, 11, 3, 2, 2, 2, 2, 13, 3, 2, 2, 2, 2, 15, 3, 2, 2, 2, 2, 17, 3, 2, 2, 2, 2, 19, 3, 2, 2, 2, 2, 21, 3, 2, 2, 2, 2, 23, 3, 2, 2, 2, 2, 25, 3, 2, 2, 2, 2, 27, 3, 2, 2, 2, 2, 29, 3, 2, 2, 2, 2, 31, 3, 2, 2, 2, 2, 33, 3, 2, 2, 2, 2, 35, 3, 2, 2, 2, 2, 37, 3, 2, 2, 2, 2, 39, 3, 2, 2, 2, 2, 41, 3, 2, 2, 2, 2, 43, 3, 2, 2, 2, 2, 45, 3, 2, 2, 2, 2, 47, 3, 2, 2, 2, 2, 49, 3, 2, 2, 2, 2, 51, 3, 2, 2, 2, 2, 53, 3, 2, 2, 2, 2, 55, 3, 2, 2, 2, 2, 57, 3, 2, 2, 2, 2, 59, 3, 2, 2, 2, 2, 61, 3, 2, 2, 2, 2, 63, 3, 2, 2, 2, 2, 65, 3, 2, 2, 2, 2, 67, 3, 2, 2, 2, 2, 69, 3, 2, 2, 2, 2, 71, 3, 2, 2, 2, 2, 73, 3, 2, 2, 2, 2, 75, 3, 2, 2, 2, 2, 77, 3, 2, 2, 2, 2, 79, 3, 2, 2, 2, 2, 81, 3, 2, 2, 2, 2, 83, 3, 2, 2, 2, 2, 85, 3, 2, 2, 2, 2, 87, 3, 2, 2, 2, 2, 89, 3, 2, 2, 2, 2, 91, 3, 2, 2, 2, 2, 93, 3, 2, 2, 2, 2, 95, 3, 2, 2, 2, 2, 97, 3, 2, 2, 2, 2, 99, 3, 2, 2, 2, 2, 101, 3, 2, 2, 2, 2, 103, 3, 2, 2, 2, 2, 105, 3, 2, 2, 2, 2, 107, 3, 2, 2, 2, 2, 109, 3, 2, 2, 2, 2, 111, 3, 2, 2, 2, 2, 113, 3, 2, 2, 2, 2, 115, 3, 2, 2, 2, 2, 117, 3, 2, 2, 2, 2, 119, 3, 2, 2, 2, 2, 121, 3, 2, 2, 2, 2, 123, 3, 2, 2, 2, 2, 125, 3, 2, 2, 2, 2, 127, 3, 2, 2, 2, 2, 129, 3, 2, 2, 2, 2, 131, 3, 2, 2, 2, 2, 133, 3, 2, 2, 2, 2, 135, 3, 2, 2, 2, 2, 137, 3, 2, 2, 2, 2, 139, 3, 2, 2, 2, 2, 141, 3, 2, 2, 2, 2, 143, 3, 2, 2, 2, 2, 145, 3, 2, 2, 2, 2, 147, 3, 2, 2, 2, 2, 149, 3, 2, 2, 2, 2, 151, 3, 2, 2, 2, 2, 153, 3, 2, 2, 2, 2, 155, 3, 2, 2, 2, 2, 157, 3, 2, 2, 2, 2, 159, 3, 2, 2, 2, 2, 161, 3, 2, 2, 2, 2, 163, 3, 2, 2, 2, 2, 165, 3, 2, 2, 2, 2, 167, 3, 2, 2, 2, 2, 169, 3, 2, 2, 2, 2, 171, 3, 2, 2, 2, 2, 173, 3, 2, 2, 2, 2, 175, 3, 2, 2, 2, 2, 177, 3, 2, 2, 2, 2, 179, 3, 2, 2, 2, 2, 181, 3, 2, 2, 2, 2, 183, 3, 2, 2, 2, 2, 185, 3, 2, 2, 2, 2, 187, 3, 2, 2, 2, 2, 189, 3, 2, 2, 2, 2, 191, 3, 2, 2, 2, 2, 193, 3, 2, 2, 2, 2, 195, 3, 2, 2, 2, 2, 197, 3, 2, 2, 2, 2, 199, 3, 2, 2, 2, 2, 201, 3, 2, 2, 2, 2, 203, 3, 2, 2, 2, 2, 205, 3, 2, 2, 2, 2, 207, 3, 2, 2, 2, 2, 209, 3, 2, 2, 2, 2, 211, 3, 2, 2, 2, 2, 213, 3, 2, 2, 2, 2, 215, 3, 2, 2, 2, 2, 217, 3, 2, 2, 2, 2, 219, 3, 2, 2, 2, 2, 221, 3, 2, 2, 2, 2, 223, 3, 2, 2, 2, 2, 225, 3, 2, 2, 2, 2, 227, 3, 2, 2, 2, 2, 229, 3, 2, 2, 2, 2, 231, 3, 2, 2, 2, 2, 233, 3, 2, 2, 2, 2, 235, 3, 2, 2, 2, 2, 237, 3, 2, 2, 2, 2, 239, 3, 2, 2, 2, 2, 241, 3, 2, 2, 2, 2, 243, 3, 2, 2, 2, 2, 245, 3, 2, 2, 2, 2, 247, 3, 2, 2, 2, 2, 249, 3, 2, 2, 2, 2, 251, 3, 2, 2, 2, 2, 253, 3, 2, 2, 2, 2, 255, 3, 2, 2, 2, 2, 257, 3, 2, 2, 2, 2, 259, 3, 2, 2, 2, 2, 261, 3, 2, 2, 2, 2, 263, 3, 2, 2, 2, 2, 265, 3, 2, 2, 2, 2, 267, 3, 2, 2, 2, 2, 269, 3, 2, 2, 2, 2, 271, 3, 2, 2, 2, 2, 273, 3, 2, 2, 2, 2, 275, 3, 2, 2, 2, 2, 277, 3, 2, 2, 2, 2, 279, 3, 2, 2, 2, 2, 281, 3, 2, 2, 2, 2, 283, 3, 2, 2, 2, 2, 285, 3, 2, 2, 2, 2, 287, 3, 2, 2, 2, 2, 289, 3, 2, 2, 2, 2, 291, 3, 2, 2, 2, 2, 293, 3, 2, 2, 2, 2, 295, 3, 2, 2, 2, 2, 297, 3, 2, 2, 2, 2, 299, 3, 2, 2, 2, 2, 301, 3, 2, 2, 2, 2, 303, 3, 2, 2, 2, 2, 305, 3, 2, 2, 2, 2, 307, 3, 2, 2, 2, 2, 309, 3, 2, 2, 2, 2, 311, 3, 2, 2, 2, 2, 313, 3, 2, 2, 2, 2, 315, 3, 2, 2, 2, 2, 317, 3, 2, 2, 2, 2, 319, 3, 2, 2, 2, 2, 321, 3, 2, 2, 2, 2, 323, 3, 2, 2, 2, 2, 325, 3, 2, 2, 2, 2, 327, 3, 2, 2, 2, 2, 329, 3, 2, 2, 2, 2, 331, 3, 2, 2, 2, 2, 333, 3, 2, 2, 2, 2, 335, 3, 2, 2, 2, 2, 337, 3, 2, 2, 2, 2, 339, 3, 2, 2, 2, 2, 341, 3, 2, 2, 2, 2, 343, 3, 2, 2, 2, 2, 345, 3, 2, 2, 2, 2, 347, 3, 2, 2, 2, 2, 349, 3, 2, 2, 2, 2, 351, 3, 2, 2, 2, 2, 353, 3, 2, 2, 2, 2, 355, 3, 2, 2, 2, 2, 357, 3, 2, 2, 2, 2, 359, 3, 2, 2, 2, 2, 361, 3, 2, 2, 2, 2, 363, 3, 2, 2, 2, 2, 365, 3, 2, 2, 2, 2, 367, 3, 2, 2, 2, 2, 369, 3, 2, 2, 2, 2, 371, 3, 2, 2, 2, 2, 373, 3, 2, 2, 2, 2, 375, 3, 2, 2, 2, 2, 377, 3, 2, 2, 2, 2, 379, 3, 2, 2, 2, 2, 381, 3, 2, 2, 2, 2, 383, 3, 2, 2, 2, 2, 385, 3, 2, 2, 2, 2, 387, 3, 2, 2, 2, 2, 389, 3, 2, 2, 2, 2, 391, 3, 2, 2, 2, 2, 393, 3, 2, 2, 2, 2, 395, 3, 2, 2, 2, 2, 397, 3, 2, 2, 2, 2, 399, 3, 2, 2, 2, 2, 401, 3, 2, 2, 2, 2, 403, 3, 2, 2, 2, 2, 405, 3, 2, 2, 2, 2, 407, 3, 2, 2, 2, 2, 409, 3, 2, 2, 2, 2, 411, 3, 2, 2, 2, 2, 413, 3, 2, 2, 2, 2, 415, 3, 2, 2, 2, 3, 469, 3, 2, 2, 2, 5, 471, 3, 2, 2, 2, 7, 473, 3, 2, 2, 2, 9, 475, 3, 2, 2, 2, 11, 477, 3, 2, 2, 2, 13, 479, 3, 2, 2, 2, 15, 481, 3, 2, 2, 2, 17, 483, 3, 2, 2, 2, 19, 485, 3, 2, 2, 2, 21, 487, 3, 2, 2, 2, 23, 489, 3, 2, 2, 2, 25, 491, 3, 2, 2, 2, 27, 493, 3, 2, 2, 2, 29, 495, 3, 2, 2, 2, 31, 497, 3, 2, 2, 2, 33, 499, 3, 2, 2, 2, 35, 501, 3, 2, 2, 2, 37, 503, 3, 2, 2, 2, 39, 506, 3, 2, 2, 2, 41, 509, 3, 2, 2, 2, 43, 511, 3, 2, 2, 2, 45, 514, 3, 2, 2, 2, 47, 516, 3, 2, 2, 2, 49, 518, 3, 2, 2, 2, 51, 521, 3, 2, 2, 2, 53, 524, 3, 2, 2, 2, 55, 526, 3, 2, 2, 2, 57, 529, 3, 2, 2, 2, 59, 534, 3, 2, 2, 2, 61, 540, 3, 2, 2, 2, 63, 544, 3, 2, 2, 2, 65, 549, 3, 2, 2, 2, 67, 555, 3, 2, 2, 2, 69, 558, 3, 2, 2, 2, 71, 562, 3, 2, 2, 2, 73, 566, 3, 2, 2, 2, 75, 573, 3, 2, 2, 2, 77, 576, 3, 2, 2, 2, 79, 582, 3, 2, 2, 2, 81, 589, 3, 2, 2, 2, 83, 595, 3, 2, 2, 2, 85, 603, 3, 2, 2, 2, 87, 610, 3, 2, 2, 2, 89, 616, 3, 2, 2, 2, 91, 619, 3, 2, 2, 2, 93, 624, 3, 2, 2, 2, 95, 629, 3, 2, 2, 2, 97, 635, 3, 2, 2, 2, 99, 644, 3, 2, 2, 2, 101, 654, 3, 2, 2, 2, 103, 662, 3, 2, 2, 2, 105, 672, 3, 2, 2, 2, 107, 676, 3, 2, 2, 2, 109, 682, 3, 2, 2, 2, 111, 688, 3, 2, 2, 2, 113, 697, 3, 2, 2, 2, 115, 701, 3, 2, 2, 2, 117, 709, 3, 2, 2, 2, 119, 714, 3, 2, 2, 2, 121, 719, 3, 2, 2, 2, 123, 725, 3, 2, 2, 2, 125, 730, 3, 2, 2, 2, 127, 733, 3, 2, 2, 2, 129, 737, 3, 2, 2, 2, 131, 741, 3, 2, 2, 2, 133, 746, 3, 2, 2, 2, 135, 749, 3, 2, 2, 2, 137, 754, 3, 2, 2, 2, 139, 759, 3, 2, 2, 2, 141, 764, 3, 2, 2, 2, 143, 770, 3, 2, 2, 2, 145, 776, 3, 2, 2, 2, 147, 780, 3, 2, 2, 2, 149, 787, 3, 2, 2, 2, 151, 793, 3, 2, 2, 2, 153, 801, 3, 2, 2, 2, 155, 807, 3, 2, 2, 2, 157, 816, 3, 2, 2, 2, 159, 826, 3, 2, 2, 2, 161, 830, 3, 2, 2, 2, 163, 835, 3, 2, 2, 2, 165, 842, 3, 2, 2, 2, 167, 851, 3, 2, 2, 2, 169, 861, 3, 2, 2, 2, 171, 865, 3, 2, 2, 2, 173, 875, 3, 2, 2, 2, 175, 884, 3, 2, 2, 2, 177, 891, 3, 2, 2, 2, 179, 896, 3, 2, 2, 2, 181, 903, 3, 2, 2, 2, 183, 908, 3, 2, 2, 2, 185, 912, 3, 2, 2, 2, 187, 919, 3, 2, 2, 2, 189, 925, 3, 2, 2, 2, 191, 929, 3, 2, 2, 2, 193, 937, 3, 2, 2, 2, 195, 944, 3, 2, 2, 2, 197, 953, 3, 2, 2, 2, 199, 960, 3, 2, 2, 2, 201, 968, 3, 2, 2, 2, 203, 976, 3, 2, 2, 2, 205, 982, 3, 2, 2, 2, 207, 989, 3, 2, 2, 2, 209, 999, 3, 2, 2, 2, 211, 1003, 3, 2, 2, 2, 213, 1010, 3, 2, 2, 2, 215, 1018, 3, 2, 2, 2, 217, 1024, 3, 2, 2, 2, 219, 1030, 3, 2, 2, 2, 221, 1036, 3, 2, 2, 2, 223, 1044, 3, 2, 2, 2, 225, 1048, 3, 2, 2, 2, 227, 1057, 3, 2, 2, 2, 229, 1064, 3, 2, 2, 2, 231, 1070, 3, 2, 2, 2, 233, 1074, 3, 2, 2, 2, 235, 1082, 3, 2, 2, 2, 237, 1087, 3, 2, 2, 2, 239, 1099, 3, 2, 2, 2, 241, 1105, 3, 2, 2, 2, 243, 1108, 3, 2, 2, 2, 245, 1114, 3, 2, 2, 2, 247, 1119, 3, 2, 2, 2, 249, 1125, 3, 2, 2, 2, 251, 1131, 3, 2, 2, 2, 253, 1140, 3, 2, 2, 2, 255, 1147, 3, 2, 2, 2, 257, 1153, 3, 2, 2, 2, 259, 1162, 3, 2, 2, 2, 261, 1168, 3, 2, 2, 2, 263, 1175, 3, 2, 2, 2, 265, 1191, 3, 2, 2, 2, 267, 1210, 3, 2, 2, 2, 269, 1220, 3, 2, 2, 2, 271, 1233, 3, 2, 2, 2, 273, 1246, 3, 2, 2, 2, 275, 1262, 3, 2, 2, 2, 277, 1276, 3, 2, 2, 2, 279, 1290, 3, 2, 2, 2, 281, 1308, 3, 2, 2, 2, 283, 1312, 3, 2, 2, 2, 285, 1329, 3, 2, 2, 2, 287, 1349, 3, 2, 2, 2, 289, 1358, 3, 2, 2, 2, 291, 1361, 3, 2, 2, 2, 293, 1367, 3, 2, 2, 2, 295, 1375, 3, 2, 2, 2, 297, 1379, 3, 2, 2, 2, 299, 1384, 3, 2, 2, 2, 301, 1392, 3, 2, 2, 2, 303, 1402, 3, 2, 2, 2, 305, 1406, 3, 2, 2, 2, 307, 1419, 3, 2, 2, 2, 309, 1432, 3, 2, 2, 2, 311, 1442, 3, 2, 2, 2, 313, 1446, 3, 2, 2, 2, 315, 1456, 3, 2, 2, 2, 317, 1469, 3, 2, 2, 2, 319, 1487, 3, 2, 2, 2, 321, 1495, 3, 2, 2, 2, 323, 1500, 3, 2, 2, 2, 325, 1509, 3, 2, 2, 2, 327, 1521, 3, 2, 2, 2, 329, 1533, 3, 2, 2, 2, 331, 1546, 3, 2, 2, 2, 333, 1561, 3, 2, 2, 2, 335, 1565, 3, 2, 2, 2, 337, 1570, 3, 2, 2, 2, 339, 1577, 3, 2, 2, 2, 341, 1584, 3, 2, 2, 2, 343, 1591, 3, 2, 2, 2, 345, 1604, 3, 2, 2, 2, 347, 1614, 3, 2, 2, 2, 349, 1618, 3, 2, 2, 2, 351, 1621, 3, 2, 2, 2, 353, 1638, 3, 2, 2, 2, 355, 1641, 3, 2, 2, 2, 357, 1644, 3, 2, 2, 2, 359, 1662, 3, 2, 2, 2, 361, 1669, 3, 2, 2, 2, 363, 1704, 3, 2, 2, 2, 365, 1706, 3, 2, 2, 2, 367, 1709, 3, 2, 2, 2, 369, 1712, 3, 2, 2, 2, 371, 1715, 3, 2, 2, 2, 373, 1718, 3, 2, 2, 2, 375, 1721, 3, 2, 2, 2, 377, 1724, 3, 2, 2, 2, 379, 1733, 3, 2, 2, 2, 381, 1743, 3, 2, 2, 2, 383, 1753, 3, 2, 2, 2, 385, 1775, 3, 2, 2, 2, 387, 1797, 3, 2, 2, 2, 389, 1800, 3, 2, 2, 2, 391, 1809, 3, 2, 2, 2, 393, 1813, 3, 2, 2, 2, 395, 1823, 3, 2, 2, 2, 397, 1827, 3, 2, 2, 2, 399, 1831, 3, 2, 2, 2, 401, 1842, 3, 2, 2, 2, 403, 1844, 3, 2, 2, 2, 405, 1858, 3, 2, 2, 2, 407, 1877, 3, 2, 2, 2, 409, 1879, 3, 2, 2, 2, 411, 1884, 3, 2, 2, 2, 413, 1886, 3, 2, 2, 2, 415, 1889, 3, 2, 2, 2, 417, 1898, 3, 2, 2, 2, 419, 1900, 3, 2, 2, 2, 421, 1902, 3, 2, 2, 2, 423, 1904, 3, 2, 2, 2, 425, 1906, 3, 2, 2, 2, 427, 1908, 3, 2, 2, 2, 429, 1910, 3, 2, 2, 2, 431, 1912, 3, 2, 2, 2, 433, 1914, 3, 2, 2, 2, 435, 1916, 3, 2, 2, 2, 437, 1918, 3, 2, 2, 2, 439, 1920, 3, 2, 2, 2, 441, 1922, 3, 2, 2, 2, 443, 1924, 3, 2, 2, 2, 445, 1926, 3, 2, 2, 2, 447, 1928, 3, 2, 2, 2, 449, 1930, 3, 2, 2, 2, 451, 1932, 3, 2, 2, 2, 453, 1934, 3, 2, 2, 2, 455, 1936, 3, 2, 2, 2, 457, 1938, 3, 2, 2, 2, 459, 1940, 3, 2, 2, 2, 461, 1942, 3, 2, 2, 2, 463, 1944, 3, 2, 2, 2, 465, 1946, 3, 2, 2, 2, 467, 1948, 3, 2, 2, 2, 469, 470, 7, 44, 2, 2, 470, 4, 3, 2, 2, 2, 471, 472, 7, 42, 2, 2, 472, 6, 3, 2, 2, 2, 473, 474, 7, 43, 2, 2, 474, 8, 3, 2, 2, 2, 475, 476, 7, 125, 2, 2, 476, 10, 3, 2, 2, 2, 477, 478, 7, 127, 2, 2, 478, 12, 3, 2, 2, 2, 479, 480, 7, 61, 2, 2, 480, 14, 3, 2, 2, 2, 481, 482, 7, 48, 2, 2, 482, 16, 3, 2, 2, 2, 483, 484, 7, 46, 2, 2, 484, 18, 3, 2, 2, 2, 485, 486, 7, 99, 2, 2, 486, 20, 3, 2, 2, 2, 487, 488, 7, 126, 2, 2, 488, 22, 3, 2, 2, 2, 489, 490, 7, 49, 2, 2, 490, 24, 3, 2, 2, 2, 491, 492, 7, 96, 2, 2, 492, 26, 3, 2, 2, 2, 493, 494, 7, 65, 2, 2, 494, 28, 3, 2, 2, 2, 495, 496, 7, 45, 2, 2, 496, 30, 3, 2, 2, 2, 497, 498, 7, 35, 2, 2, 498, 32, 3, 2, 2, 2, 499, 500, 7, 93, 2, 2, 500, 34, 3, 2, 2, 2, 501, 502, 7, 95, 2, 2, 502, 36, 3, 2, 2, 2, 503, 504, 7, 126, 2, 2, 504, 505, 7, 126, 2, 2, 505, 38, 3, 2, 2, 2, 506, 507, 7, 40, 2, 2, 507, 508, 7, 40, 2, 2, 508, 40, 3, 2, 2, 2, 509, 510, 7, 63, 2, 2, 510, 42, 3, 2, 2, 2, 511, 512, 7, 35, 2, 2, 512, 513, 7, 63, 2, 2, 513, 44, 3, 2, 2, 2, 514, 515, 7, 62, 2, 2, 515, 46, 3, 2, 2, 2, 516, 517, 7, 64, 2, 2, 517, 48, 3, 2, 2, 2, 518, 519, 7, 62, 2, 2, 519, 520, 7, 63, 2, 2, 520, 50, 3, 2, 2, 2, 521, 522, 7, 64, 2, 2, 522, 523, 7, 63, 2, 2, 523, 52, 3, 2, 2, 2, 524, 525, 7, 47, 2, 2, 525, 54, 3, 2, 2, 2, 526, 527, 7, 96, 2, 2, 527, 528, 7, 96, 2, 2, 528, 56, 3, 2, 2, 2, 529, 530, 7, 118, 2, 2, 530, 531, 7, 116, 2, 2, 531, 532, 7, 119, 2, 2, 532, 533, 7, 103, 2, 2, 533, 58, 3, 2, 2, 2, 534, 535, 7, 104, 2, 2, 535, 536, 7, 99, 2, 2, 536, 537, 7, 110, 2, 2, 537, 538, 7, 117, 2, 2, 538, 539, 7, 103, 2, 2, 539, 60, 3, 2, 2, 2, 540, 541, 5, 443, 222, 2, 541, 542, 5, 445, 223, 2, 542, 543, 5, 461, 231, 2, 543, 62, 3, 2, 2, 2, 544, 545, 5, 465, 233, 2, 545, 546, 5, 425, 213, 2, 546, 547, 5, 417, 209, 2, 547, 548, 5, 451, 226, 2, 548, 64, 3, 2, 2, 2, 549, 550, 5, 457, 229, 2, 550, 551, 5, 443, 222, 2, 551, 552, 5, 433, 217, 2, 552, 553, 5, 445, 223, 2, 553, 554, 5, 443, 222, 2, 554, 66, 3, 2, 2, 2, 555, 556, 5, 433, 217, 2, 556, 557, 5, 427, 214, 2, 557, 68, 3, 2, 2, 2, 558, 559, 5, 417, 209, 2, 559, 560, 5, 453, 227, 2, 560, 561, 5, 437, 219, 2, 561, 70, 3, 2, 2, 2, 562, 563, 5, 417, 209, 2, 563, 564, 5, 453, 227, 2, 564, 565, 5, 421, 211, 2, 565, 72, 3, 2, 2, 2, 566, 567, 5, 421, 211, 2, 567, 568, 5, 445, 223, 2, 568, 569, 5, 443, 222, 2, 569, 570, 5, 421, 211, 2, 570, 571, 5, 417, 209, 2, 571, 572, 5, 455, 228, 2, 572, 74, 3, 2, 2, 2, 573, 574, 5, 433, 217, 2, 574, 575, 5, 443, 222, 2, 575, 76, 3, 2, 2, 2, 576, 577, 5, 457, 229, 2, 577, 578, 5, 443, 222, 2, 578, 579, 5, 423, 212, 2, 579, 580, 5, 425, 213, 2, 580, 581, 5, 427, 214, 2, 581, 78, 3, 2, 2, 2, 582, 583, 5, 433, 217, 2, 583, 584, 5, 443, 222, 2, 584, 585, 5, 453, 227, 2, 585, 586, 5, 425, 213, 2, 586, 587, 5, 451, 226, 2, 587, 588, 5, 455, 228, 2, 588, 80, 3, 2, 2, 2, 589, 590, 5, 441, 221, 2, 590, 591, 5, 445, 223, 2, 591, 592, 5, 443, 222, 2, 592, 593, 5, 455, 228, 2, 593, 594, 5, 431, 216, 2, 594, 82, 3, 2, 2, 2, 595, 596, 5, 423, 212, 2, 596, 597, 5, 425, 213, 2, 597, 598, 5, 427, 214, 2, 598, 599, 5, 417, 209, 2, 599, 600, 5, 457, 229, 2, 600, 601, 5, 439, 220, 2, 601, 602, 5, 455, 228, 2, 602, 84, 3, 2, 2, 2, 603, 604, 5, 453, 227, 2, 604, 605, 5, 425, 213, 2, 605, 606, 5, 439, 220, 2, 606, 607, 5, 425, 213, 2, 607, 608, 5, 421, 211, 2, 608, 609, 5, 455, 228, 2, 609, 86, 3, 2, 2, 2, 610, 611, 5, 427, 214, 2, 611, 612, 5, 439, 220, 2, 612, 613, 5, 445, 223, 2, 613, 614, 5, 445, 223, 2, 614, 615, 5, 451, 226, 2, 615, 88, 3, 2, 2, 2, 616, 617, 5, 455, 228, 2, 617, 618, 5, 467, 234, 2, 618, 90, 3, 2, 2, 2, 619, 620, 5, 421, 211, 2, 620, 621, 5, 445, 223, 2, 621, 622, 5, 447, 224, 2, 622, 623, 5, 465, 233, 2, 623, 92, 3, 2, 2, 2, 624, 625, 5, 421, 211, 2, 625, 626, 5, 425, 213, 2, 626, 627, 5, 433, 217, 2, 627, 628, 5, 439, 220, 2, 628, 94, 3, 2, 2, 2, 629, 630, 5, 431, 216, 2, 630, 631, 5, 445, 223, 2, 631, 632, 5, 457, 229, 2, 632, 633, 5, 451, 226, 2, 633, 634, 5, 453, 227, 2, 634, 96, 3, 2, 2, 2, 635, 636, 5, 423, 212, 2, 636, 637, 5, 417, 209, 2, 637, 638, 5, 455, 228, 2, 638, 639, 5, 417, 209, 2, 639, 640, 5, 455, 228, 2, 640, 641, 5, 465, 233, 2, 641, 642, 5, 447, 224, 2, 642, 643, 5, 425, 213, 2, 643, 98, 3, 2, 2, 2, 644, 645, 5, 433, 217, 2, 645, 646, 5, 453, 227, 2, 646, 647, 5, 443, 222, 2, 647, 648, 5, 457, 229, 2, 648, 649, 5, 441, 221, 2, 649, 650, 5, 425, 213, 2, 650, 651, 5, 451, 226, 2, 651, 652, 5, 433, 217, 2, 652, 653, 5, 421, 211, 2, 653, 100, 3, 2, 2, 2, 654, 655, 5, 453, 227, 2, 655, 656, 5, 455, 228, 2, 656, 657, 5, 451, 226, 2, 657, 658, 5, 457, 229, 2, 658, 659, 5, 457, 229, 2, 659, 660, 5, 433, 217, 2, 660, 661, 5, 423, 212, 2, 661, 102, 3, 2, 2, 2, 662, 663, 5, 421, 211, 2, 663, 664, 5, 445, 223, 2, 664, 665, 5, 443, 222, 2, 665, 666, 5, 453, 227, 2, 666, 667, 5, 455, 228, 2, 667, 668, 5, 451, 226, 2, 668, 669, 5, 457, 229, 2, 669, 670, 5, 421, 211, 2, 670, 671, 5, 455, 228, 2, 671, 104, 3, 2, 2, 2, 672, 673, 5, 417, 209, 2, 673, 674, 5, 423, 212, 2, 674, 675, 5, 423, 212, 2, 675, 106, 3, 2, 2, 2, 676, 677, 5, 419, 210, 2, 677, 678, 5, 445, 223, 2, 678, 679, 5, 457, 229, 2, 679, 680, 5, 443, 222, 2, 680, 681, 5, 423, 212, 2, 681, 108, 3, 2, 2, 2, 682, 683, 5, 443, 222, 2, 683, 684, 5, 417, 209, 2, 684, 685, 5, 441, 221, 2, 685, 686, 5, 425, 213, 2, 686, 687, 5, 423, 212, 2, 687, 110, 3, 2, 2, 2, 688, 689, 5, 455, 228, 2, 689, 690, 5, 433, 217, 2, 690, 691, 5, 441, 221, 2, 691, 692, 5, 425, 213, 2, 692, 693, 5, 467, 234, 2, 693, 694, 5, 445, 223, 2, 694, 695, 5, 443, 222, 2, 695, 696, 5, 425, 213, 2, 696, 112, 3, 2, 2, 2, 697, 698, 5, 441, 221, 2, 698, 699, 5, 433, 217, 2, 699, 700, 5, 443, 222, 2, 700, 114, 3, 2, 2, 2, 701, 702, 5, 433, 217, 2, 702, 703, 5, 453, 227, 2, 703, 704, 5, 419, 210, 2, 704, 705, 5, 439, 220, 2, 705, 706, 5, 417, 209, 2, 706, 707, 5, 443, 222, 2, 707, 708, 5, 437, 219, 2, 708, 116, 3, 2, 2, 2, 709, 710, 5, 457, 229, 2, 710, 711, 5, 457, 229, 2, 711, 712, 5, 433, 217, 2, 712, 713, 5, 423, 212, 2, 713, 118, 3, 2, 2, 2, 714, 715, 5, 419, 210, 2, 715, 716, 5, 433, 217, 2, 716, 717, 5, 443, 222, 2, 717, 718, 5, 423, 212, 2, 718, 120, 3, 2, 2, 2, 719, 720, 5, 421, 211, 2, 720, 721, 5, 439, 220, 2, 721, 722, 5, 425, 213, 2, 722, 723, 5, 417, 209, 2, 723, 724, 5, 451, 226, 2, 724, 122, 3, 2, 2, 2, 725, 726, 5, 433, 217, 2, 726, 727, 5, 443, 222, 2, 727, 728, 5, 455, 228, 2, 728, 729, 5, 445, 223, 2, 729, 124, 3, 2, 2, 2, 730, 731, 5, 417, 209, 2, 731, 732, 5, 453, 227, 2, 732, 126, 3, 2, 2, 2, 733, 734, 5, 417, 209, 2, 734, 735, 5, 439, 220, 2, 735, 736, 5, 439, 220, 2, 736, 128, 3, 2, 2, 2, 737, 738, 5, 433, 217, 2, 738, 739, 5, 451, 226, 2, 739, 740, 5, 433, 217, 2, 740, 130, 3, 2, 2, 2, 741, 742, 5, 419, 210, 2, 742, 743, 5, 417, 209, 2, 743, 744, 5, 453, 227, 2, 744, 745, 5, 425, 213, 2, 745, 132, 3, 2, 2, 2, 746, 747, 5, 419, 210, 2, 747, 748, 5, 465, 233, 2, 748, 134, 3, 2, 2, 2, 749, 750, 5, 423, 212, 2, 750, 751, 5, 451, 226, 2, 751, 752, 5, 445, 223, 2, 752, 753, 5, 447, 224, 2, 753, 136, 3, 2, 2, 2, 754, 755, 5, 439, 220, 2, 755, 756, 5, 445, 223, 2, 756, 757, 5, 417, 209, 2, 757, 758, 5, 423, 212, 2, 758, 138, 3, 2, 2, 2, 759, 760, 5, 461, 231, 2, 760, 761, 5, 433, 217, 2, 761, 762, 5, 455, 228, 2, 762, 763, 5, 431, 216, 2, 763, 140, 3, 2, 2, 2, 764, 765, 5, 419, 210, 2, 765, 766, 5, 443, 222, 2, 766, 767, 5, 445, 223, 2, 767, 768, 5, 423, 212, 2, 768, 769, 5, 425, 213, 2, 769, 142, 3, 2, 2, 2, 770, 771, 5, 461, 231, 2, 771, 772, 5, 431, 216, 2, 772, 773, 5, 425, 213, 2, 773, 774, 5, 451, 226, 2, 774, 775, 5, 425, 213, 2, 775, 144, 3, 2, 2, 2, 776, 777, 5, 417, 209, 2, 777, 778, 5, 459, 230, 2, 778, 779, 5, 429, 215, 2, 779, 146, 3, 2, 2, 2, 780, 781, 5, 453, 227, 2, 781, 782, 5, 417, 209, 2, 782, 783, 5, 441, 221, 2, 783, 784, 5, 447, 224, 2, 784, 785, 5, 439, 220, 2, 785, 786, 5, 425, 213, 2, 786, 148, 3, 2, 2, 2, 787, 788, 5, 457, 229, 2, 788, 789, 5, 421, 211, 2, 789, 790, 5, 417, 209, 2, 790, 791, 5, 453, 227, 2, 791, 792, 5, 425, 213, 2, 792, 150, 3, 2, 2, 2, 793, 794, 5, 453, 227, 2, 794, 795, 5, 425, 213, 2, 795, 796, 5, 451, 226, 2, 796, 797, 5, 459, 230, 2, 797, 798, 5, 433, 217, 2, 798, 799, 5, 421, 211, 2, 799, 800, 5, 425, 213, 2, 800, 152, 3, 2, 2, 2, 801, 802, 5, 441, 221, 2, 802, 803, 5, 433, 217, 2, 803, 804, 5, 443, 222, 2, 804, 805, 5, 457, 229, 2, 805, 806, 5, 453, 227, 2, 806, 154, 3, 2, 2, 2, 807, 808, 5, 453, 227, 2, 808, 809, 5, 417, 209, 2, 809, 810, 5, 441, 221, 2, 810, 811, 5, 425, 213, 2, 811, 812, 5, 455, 228, 2, 812, 813, 5, 425, 213, 2, 813, 814, 5, 451, 226, 2, 814, 815, 5, 441, 221, 2, 815, 156, 3, 2, 2, 2, 816, 817, 5, 453, 227, 2, 817, 818, 5, 455, 228, 2, 818, 819, 5, 451, 226, 2, 819, 820, 5, 453, 227, 2, 820, 821, 5, 455, 228, 2, 821, 822, 5, 417, 209, 2, 822, 823, 5, 451, 226, 2, 823, 824, 5, 455, 228, 2, 824, 825, 5, 453, 227, 2, 825, 158, 3, 2, 2, 2, 826, 827, 5, 453, 227, 2, 827, 828, 5, 455, 228, 2, 828, 829, 5, 451, 226, 2, 829, 160, 3, 2, 2, 2, 830, 831, 5, 441, 221, 2, 831, 832, 5, 445, 223, 2, 832, 833, 5, 459, 230, 2, 833, 834, 5, 425, 213, 2, 834, 162, 3, 2, 2, 2, 835, 836, 5, 431, 216, 2, 836, 837, 5, 417, 209, 2, 837, 838, 5, 459, 230, 2, 838, 839, 5, 433, 217, 2, 839, 840, 5, 443, 222, 2, 840, 841, 5, 429, 215, 2, 841, 164, 3, 2, 2, 2, 842, 843, 5, 421, 211, 2, 843, 844, 5, 445, 223, 2, 844, 845, 5, 417, 209, 2, 845, 846, 5, 439, 220, 2, 846, 847, 5, 425, 213, 2, 847, 848, 5, 453, 227, 2, 848, 849, 5, 421, 211, 2, 849, 850, 5, 425, 213, 2, 850, 166, 3, 2, 2, 2, 851, 852, 5, 453, 227, 2, 852, 853, 5, 455, 228, 2, 853, 854, 5, 451, 226, 2, 854, 855, 5, 419, 210, 2, 855, 856, 5, 425, 213, 2, 856, 857, 5, 427, 214, 2, 857, 858, 5, 445, 223, 2, 858, 859, 5, 451, 226, 2, 859, 860, 5, 425, 213, 2, 860, 168, 3, 2, 2, 2, 861, 862, 5, 417, 209, 2, 862, 863, 5, 419, 210, 2, 863, 864, 5, 453, 227, 2, 864, 170, 3, 2, 2, 2, 865, 866, 5, 433, 217, 2, 866, 867, 5, 453, 227, 2, 867, 868, 5, 439, 220, 2, 868, 869, 5, 433, 217, 2, 869, 870, 5, 455, 228, 2, 870, 871, 5, 425, 213, 2, 871, 872, 5, 451, 226, 2, 872, 873, 5, 417, 209, 2, 873, 874, 5, 439, 220, 2, 874, 172, 3, 2, 2, 2, 875, 876, 5, 453, 227, 2, 876, 877, 5, 455, 228, 2, 877, 878, 5, 451, 226, 2, 878, 879, 5, 417, 209, 2, 879, 880, 5, 427, 214, 2, 880, 881, 5, 455, 228, 2, 881, 882, 5, 425, 213, 2, 882, 883, 5, 451, 226, 2, 883, 174, 3, 2, 2, 2, 884, 885, 5, 453, 227, 2, 885, 886, 5, 455, 228, 2, 886, 887, 5, 451, 226, 2, 887, 888, 5, 439, 220, 2, 888, 889, 5, 425, 213, 2, 889, 890, 5, 443, 222, 2, 890, 176, 3, 2, 2, 2, 891, 892, 5, 439, 220, 2, 892, 893, 5, 417, 209, 2, 893, 894, 5, 443, 222, 2, 894, 895, 5, 429, 215, 2, 895, 178, 3, 2, 2, 2, 896, 897, 5, 421, 211, 2, 897, 898, 5, 451, 226, 2, 898, 899, 5, 425, 213, 2, 899, 900, 5, 417, 209, 2, 900, 901, 5, 455, 228, 2, 901, 902, 5, 425, 213, 2, 902, 180, 3, 2, 2, 2, 903, 904, 5, 423, 212, 2, 904, 905, 5, 425, 213, 2, 905, 906, 5, 453, 227, 2, 906, 907, 5, 421, 211, 2, 907, 182, 3, 2, 2, 2, 908, 909, 5, 441, 221, 2, 909, 910, 5, 417, 209, 2, 910, 911, 5, 463, 232, 2, 911, 184, 3, 2, 2, 2, 912, 913, 5, 427, 214, 2, 913, 914, 5, 433, 217, 2, 914, 915, 5, 439, 220, 2, 915, 916, 5, 455, 228, 2, 916, 917, 5, 425, 213, 2, 917, 918, 5, 451, 226, 2, 918, 186, 3, 2, 2, 2, 919, 920, 5, 457, 229, 2, 920, 921, 5, 453, 227, 2, 921, 922, 5, 433, 217, 2, 922, 923, 5, 443, 222, 2, 923, 924, 5, 429, 215, 2, 924, 188, 3, 2, 2, 2, 925, 926, 5, 443, 222, 2, 926, 927, 5, 445, 223, 2, 927, 928, 5, 455, 228, 2, 928, 190, 3, 2, 2, 2, 929, 930, 5, 453, 227, 2, 930, 931, 5, 455, 228, 2, 931, 932, 5, 451, 226, 2, 932, 933, 5, 425, 213, 2, 933, 934, 5, 443, 222, 2, 934, 935, 5, 423, 212, 2, 935, 936, 5, 453, 227, 2, 936, 192, 3, 2, 2, 2, 937, 938, 5, 445, 223, 2, 938, 939, 5, 427, 214, 2, 939, 940, 5, 427, 214, 2, 940, 941, 5, 453, 227, 2, 941, 942, 5, 425, 213, 2, 942, 943, 5, 455, 228, 2, 943, 194, 3, 2, 2, 2, 944, 945, 5, 421, 211, 2, 945, 946, 5, 445, 223, 2, 946, 947, 5, 443, 222, 2, 947, 948, 5, 455, 228, 2, 948, 949, 5, 417, 209, 2, 949, 950, 5, 433, 217, 2, 950, 951, 5, 443, 222, 2, 951, 952, 5, 453, 227, 2, 952, 196, 3, 2, 2, 2, 953, 954, 5, 447, 224, 2, 954, 955, 5, 451, 226, 2, 955, 956, 5, 425, 213, 2, 956, 957, 5, 427, 214, 2, 957, 958, 5, 433, 217, 2, 958, 959, 5, 463, 232, 2, 959, 198, 3, 2, 2, 2, 960, 961, 5, 441, 221, 2, 961, 962, 5, 433, 217, 2, 962, 963, 5, 443, 222, 2, 963, 964, 5, 457, 229, 2, 964, 965, 5, 455, 228, 2, 965, 966, 5, 425, 213, 2, 966, 967, 5, 453, 227, 2, 967, 200, 3, 2, 2, 2, 968, 969, 5, 451, 226, 2, 969, 970, 5, 425, 213, 2, 970, 971, 5, 447, 224, 2, 971, 972, 5, 439, 220, 2, 972, 973, 5, 417, 209, 2, 973, 974, 5, 421, 211, 2, 974, 975, 5, 425, 213, 2, 975, 202, 3, 2, 2, 2, 976, 977, 5, 451, 226, 2, 977, 978, 5, 425, 213, 2, 978, 979, 5, 429, 215, 2, 979, 980, 5, 425, 213, 2, 980, 981, 5, 463, 232, 2, 981, 204, 3, 2, 2, 2, 982, 983, 5, 423, 212, 2, 983, 984, 5, 425, 213, 2, 984, 985, 5, 439, 220, 2, 985, 986, 5, 425, 213, 2, 986, 987, 5, 455, 228, 2, 987, 988, 5, 425, 213, 2, 988, 206, 3, 2, 2, 2, 989, 990, 5, 453, 227, 2, 990, 991, 5, 425, 213, 2, 991, 992, 5, 447, 224, 2, 992, 993, 5, 417, 209, 2, 993, 994, 5, 451, 226, 2, 994, 995, 5, 417, 209, 2, 995, 996, 5, 455, 228, 2, 996, 997, 5, 445, 223, 2, 997, 998, 5, 451, 226, 2, 998, 208, 3, 2, 2, 2, 999, 1000, 5, 423, 212, 2, 1000, 1001, 5, 417, 209, 2, 1001, 1002, 5, 465, 233, 2, 1002, 210, 3, 2, 2, 2, 1003, 1004, 5, 453, 227, 2, 1004, 1005, 5, 433, 217, 2, 1005, 1006, 5, 439, 220, 2, 1006, 1007, 5, 425, 213, 2, 1007, 1008, 5, 443, 222, 2, 1008, 1009, 5, 455, 228, 2, 1009, 212, 3, 2, 2, 2, 1010, 1011, 5, 453, 227, 2, 1011, 1012, 5, 455, 228, 2, 1012, 1013, 5, 451, 226, 2, 1013, 1014, 5, 439, 220, 2, 1014, 1015, 5, 417, 209, 2, 1015, 1016, 5, 443, 222, 2, 1016, 1017, 5, 429, 215, 2, 1017, 214, 3, 2, 2, 2, 1018, 1019, 5, 445, 223, 2, 1019, 1020, 5, 451, 226, 2, 1020, 1021, 5, 423, 212, 2, 1021, 1022, 5, 425, 213, 2, 1022, 1023, 5, 451, 226, 2, 1023, 216, 3, 2, 2, 2, 1024, 1025, 5, 451, 226, 2, 1025, 1026, 5, 445, 223, 2, 1026, 1027, 5, 457, 229, 2, 1027, 1028, 5, 443, 222, 2, 1028, 1029, 5, 423, 212, 2, 1029, 218, 3, 2, 2, 2, 1030, 1031, 5, 429, 215, 2, 1031, 1032, 5, 451, 226, 2, 1032, 1033, 5, 417, 209, 2, 1033, 1034, 5, 447, 224, 2, 1034, 1035, 5, 431, 216, 2, 1035, 220, 3, 2, 2, 2, 1036, 1037, 5, 453, 227, 2, 1037, 1038, 5, 425, 213, 2, 1038, 1039, 5, 421, 211, 2, 1039, 1040, 5, 445, 223, 2, 1040, 1041, 5, 443, 222, 2, 1041, 1042, 5, 423, 212, 2, 1042, 1043, 5, 453, 227, 2, 1043, 222, 3, 2, 2, 2, 1044, 1045, 5, 457, 229, 2, 1045, 1046, 5, 451, 226, 2, 1046, 1047, 5, 433, 217, 2, 1047, 224, 3, 2, 2, 2, 1048, 1049, 5, 423, 212, 2, 1049, 1050, 5, 433, 217, 2, 1050, 1051, 5, 453, 227, 2, 1051, 1052, 5, 455, 228, 2, 1052, 1053, 5, 433, 217, 2, 1053, 1054, 5, 443, 222, 2, 1054, 1055, 5, 421, 211, 2, 1055, 1056, 5, 455, 228, 2, 1056, 226, 3, 2, 2, 2, 1057, 1058, 5, 425, 213, 2, 1058, 1059, 5, 463, 232, 2, 1059, 1060, 5, 433, 217, 2, 1060, 1061, 5, 453, 227, 2, 1061, 1062, 5, 455, 228, 2, 1062, 1063, 5, 453, 227, 2, 1063, 228, 3, 2, 2, 2, 1064, 1065, 5, 429, 215, 2, 1065, 1066, 5, 451, 226, 2, 1066, 1067, 5, 445, 223, 2, 1067, 1068, 5, 457, 229, 2, 1068, 1069, 5, 447, 224, 2, 1069, 230, 3, 2, 2, 2, 1070, 1071, 5, 453, 227, 2, 1071, 1072, 5, 457, 229, 2, 1072, 1073, 5, 441, 221, 2, 1073, 232, 3, 2, 2, 2, 1074, 1075, 5, 451, 226, 2, 1075, 1076, 5, 425, 213, 2, 1076, 1077, 5, 423, 212, 2, 1077, 1078, 5, 457, 229, 2, 1078, 1079, 5, 421, 211, 2, 1079, 1080, 5, 425, 213, 2, 1080, 1081, 5, 423, 212, 2, 1081, 234, 3, 2, 2, 2, 1082, 1083, 5, 427, 214, 2, 1083, 1084, 5, 451, 226, 2, 1084, 1085, 5, 445, 223, 2, 1085, 1086, 5, 441, 221, 2, 1086, 236, 3, 2, 2, 2, 1087, 1088, 5, 439, 220, 2, 1088, 1089, 5, 417, 209, 2, 1089, 1090, 5, 443, 222, 2, 1090, 1091, 5, 429, 215, 2, 1091, 1092, 5, 441, 221, 2, 1092, 1093, 5, 417, 209, 2, 1093, 1094, 5, 455, 228, 2, 1094, 1095, 5, 421, 211, 2, 1095, 1096, 5, 431, 216, 2, 1096, 1097, 5, 425, 213, 2, 1097, 1098, 5, 453, 227, 2, 1098, 238, 3, 2, 2, 2, 1099, 1100, 5, 433, 217, 2, 1100, 1101, 5, 453, 227, 2, 1101, 1102, 5, 457, 229, 2, 1102, 1103, 5, 451, 226, 2, 1103, 1104, 5, 433, 217, 2, 1104, 240, 3, 2, 2, 2, 1105, 1106, 5, 455, 228, 2, 1106, 1107, 5, 445, 223, 2, 1107, 242, 3, 2, 2, 2, 1108, 1109, 5, 433, 217, 2, 1109, 1110, 5, 453, 227, 2, 1110, 1111, 5, 433, 217, 2, 1111, 1112, 5, 451, 226, 2, 1112, 1113, 5, 433, 217, 2, 1113, 244, 3, 2, 2, 2, 1114, 1115, 5, 451, 226, 2, 1115, 1116, 5, 417, 209, 2, 1116, 1117, 5, 443, 222, 2, 1117, 1118, 5, 423, 212, 2, 1118, 246, 3, 2, 2, 2, 1119, 1120, 5, 453, 227, 2, 1120, 1121, 5, 455, 228, 2, 1121, 1122, 5, 451, 226, 2, 1122, 1123, 5, 423, 212, 2, 1123, 1124, 5, 455, 228, 2, 1124, 248, 3, 2, 2, 2, 1125, 1126, 5, 421, 211, 2, 1126, 1127, 5, 445, 223, 2, 1127, 1128, 5, 457, 229, 2, 1128, 1129, 5, 443, 222, 2, 1129, 1130, 5, 455, 228, 2, 1130, 250, 3, 2, 2, 2, 1131, 1132, 5, 423, 212, 2, 1132, 1133, 5, 425, 213, 2, 1133, 1134, 5, 453, 227, 2, 1134, 1135, 5, 421, 211, 2, 1135, 1136, 5, 451, 226, 2, 1136, 1137, 5, 433, 217, 2, 1137, 1138, 5, 419, 210, 2, 1138, 1139, 5, 425, 213, 2, 1139, 252, 3, 2, 2, 2, 1140, 1141, 5, 459, 230, 2, 1141, 1142, 5, 417, 209, 2, 1142, 1143, 5, 439, 220, 2, 1143, 1144, 5, 457, 229, 2, 1144, 1145, 5, 425, 213, 2, 1145, 1146, 5, 453, 227, 2, 1146, 254, 3, 2, 2, 2, 1147, 1148, 5, 439, 220, 2, 1148, 1149, 5, 421, 211, 2, 1149, 1150, 5, 417, 209, 2, 1150, 1151, 5, 453, 227, 2, 1151, 1152, 5, 425, 213, 2, 1152, 256, 3, 2, 2, 2, 1153, 1154, 5, 445, 223, 2, 1154, 1155, 5, 447, 224, 2, 1155, 1156, 5, 455, 228, 2, 1156, 1157, 5, 433, 217, 2, 1157, 1158, 5, 445, 223, 2, 1158, 1159, 5, 443, 222, 2, 1159, 1160, 5, 417, 209, 2, 1160, 1161, 5, 439, 220, 2, 1161, 258, 3, 2, 2, 2, 1162, 1163, 5, 439, 220, 2, 1163, 1164, 5, 433, 217, 2, 1164, 1165, 5, 441, 221, 2, 1165, 1166, 5, 433, 217, 2, 1166, 1167, 5, 455, 228, 2, 1167, 260, 3, 2, 2, 2, 1168, 1169, 5, 453, 227, 2, 1169, 1170, 5, 457, 229, 2, 1170, 1171, 5, 419, 210, 2, 1171, 1172, 5, 453, 227, 2, 1172, 1173, 5, 455, 228, 2, 1173, 1174, 5, 451, 226, 2, 1174, 262, 3, 2, 2, 2, 1175, 1176, 5, 453, 227, 2, 1176, 1177, 5, 433, 217, 2, 1177, 1178, 5, 441, 221, 2, 1178, 1179, 5, 447, 224, 2, 1179, 1180, 5, 439, 220, 2, 1180, 1181, 5, 425, 213, 2, 1181, 1182, 5, 421, 211, 2, 1182, 1183, 5, 465, 233, 2, 1183, 1184, 5, 421, 211, 2, 1184, 1185, 5, 439, 220, 2, 1185, 1186, 5, 425, 213, 2, 1186, 1187, 5, 447, 224, 2, 1187, 1188, 5, 417, 209, 2, 1188, 1189, 5, 455, 228, 2, 1189, 1190, 5, 431, 216, 2, 1190, 264, 3, 2, 2, 2, 1191, 1192, 5, 453, 227, 2, 1192, 1193, 5, 433, 217, 2, 1193, 1194, 5, 441, 221, 2, 1194, 1195, 5, 447, 224, 2, 1195, 1196, 5, 439, 220, 2, 1196, 1197, 5, 425, 213, 2, 1197, 1198, 5, 421, 211, 2, 1198, 1199, 5, 465, 233, 2, 1199, 1200, 5, 421, 211, 2, 1200, 1201, 5, 439, 220, 2, 1201, 1202, 5, 425, 213, 2, 1202, 1203, 5, 419, 210, 2, 1203, 1204, 5, 445, 223, 2, 1204, 1205, 5, 445, 223, 2, 1205, 1206, 5, 439, 220, 2, 1206, 1207, 5, 425, 213, 2, 1207, 1208, 5, 417, 209, 2, 1208, 1209, 5, 443, 222, 2, 1209, 266, 3, 2, 2, 2, 1210, 1211, 5, 421, 211, 2, 1211, 1212, 5, 465, 233, 2, 1212, 1213, 5, 421, 211, 2, 1213, 1214, 5, 439, 220, 2, 1214, 1215, 5, 425, 213, 2, 1215, 1216, 5, 447, 224, 2, 1216, 1217, 5, 417, 209, 2, 1217, 1218, 5, 455, 228, 2, 1218, 1219, 5, 431, 216, 2, 1219, 268, 3, 2, 2, 2, 1220, 1221, 5, 421, 211, 2, 1221, 1222, 5, 465, 233, 2, 1222, 1223, 5, 421, 211, 2, 1223, 1224, 5, 439, 220, 2, 1224, 1225, 5, 425, 213, 2, 1225, 1226, 5, 419, 210, 2, 1226, 1227, 5, 445, 223, 2, 1227, 1228, 5, 445, 223, 2, 1228, 1229, 5, 439, 220, 2, 1229, 1230, 5, 425, 213, 2, 1230, 1231, 5, 417, 209, 2, 1231, 1232, 5, 443, 222, 2, 1232, 270, 3, 2, 2, 2, 1233, 1234, 5, 453, 227, 2, 1234, 1235, 5, 431, 216, 2, 1235, 1236, 5, 445, 223, 2, 1236, 1237, 5, 451, 226, 2, 1237, 1238, 5, 455, 228, 2, 1238, 1239, 5, 425, 213, 2, 1239, 1240, 5, 453, 227, 2, 1240, 1241, 5, 455, 228, 2, 1241, 1242, 5, 447, 224, 2, 1242, 1243, 5, 417, 209, 2, 1243, 1244, 5, 455, 228, 2, 1244, 1245, 5, 431, 216, 2, 1245, 272, 3, 2, 2, 2, 1246, 1247, 5, 453, 227, 2, 1247, 1248, 5, 431, 216, 2, 1248, 1249, 5, 445, 223, 2, 1249, 1250, 5, 451, 226, 2, 1250, 1251, 5, 455, 228, 2, 1251, 1252, 5, 425, 213, 2, 1252, 1253, 5, 453, 227, 2, 1253, 1254, 5, 455, 228, 2, 1254, 1255, 5, 447, 224, 2, 1255, 1256, 5, 417, 209, 2, 1256, 1257, 5, 455, 228, 2, 1257, 1258, 5, 431, 216, 2, 1258, 1259, 5, 439, 220, 2, 1259, 1260, 5, 425, 213, 2, 1260, 1261, 5, 443, 222, 2, 1261, 274, 3, 2, 2, 2, 1262, 1263, 5, 437, 219, 2, 1263, 1264, 5, 431, 216, 2, 1264, 1265, 5, 445, 223, 2, 1265, 1266, 5, 447, 224, 2, 1266, 1267, 5, 451, 226, 2, 1267, 1268, 5, 425, 213, 2, 1268, 1269, 5, 417, 209, 2, 1269, 1270, 5, 421, 211, 2, 1270, 1271, 5, 431, 216, 2, 1271, 1272, 5, 417, 209, 2, 1272, 1273, 5, 419, 210, 2, 1273, 1274, 5, 439, 220, 2, 1274, 1275, 5, 425, 213, 2, 1275, 276, 3, 2, 2, 2, 1276, 1277, 5, 437, 219, 2, 1277, 1278, 5, 431, 216, 2, 1278, 1279, 5, 445, 223, 2, 1279, 1280, 5, 447, 224, 2, 1280, 1281, 5, 425, 213, 2, 1281, 1282, 5, 443, 222, 2, 1282, 1283, 5, 457, 229, 2, 1283, 1284, 5, 441, 221, 2, 1284, 1285, 5, 425, 213, 2, 1285, 1286, 5, 451, 226, 2, 1286, 1287, 5, 417, 209, 2, 1287, 1288, 5, 455, 228, 2, 1288, 1289, 5, 425, 213, 2, 1289, 278, 3, 2, 2, 2, 1290, 1291, 5, 437, 219, 2, 1291, 1292, 5, 431, 216, 2, 1292, 1293, 5, 445, 223, 2, 1293, 1294, 5, 447, 224, 2, 1294, 1295, 5, 451, 226, 2, 1295, 1296, 5, 425, 213, 2, 1296, 1297, 5, 417, 209, 2, 1297, 1298, 5, 421, 211, 2, 1298, 1299, 5, 431, 216, 2, 1299, 1300, 5, 417, 209, 2, 1300, 1301, 5, 419, 210, 2, 1301, 1302, 5, 439, 220, 2, 1302, 1303, 5, 425, 213, 2, 1303, 1304, 5, 447, 224, 2, 1304, 1305, 5, 417, 209, 2, 1305, 1306, 5, 455, 228, 2, 1306, 1307, 5, 431, 216, 2, 1307, 280, 3, 2, 2, 2, 1308, 1309, 5, 447, 224, 2, 1309, 1310, 5, 447, 224, 2, 1310, 1311, 5, 451, 226, 2, 1311, 282, 3, 2, 2, 2, 1312, 1313, 5, 455, 228, 2, 1313, 1314, 5, 451, 226, 2, 1314, 1315, 5, 433, 217, 2, 1315, 1316, 5, 417, 209, 2, 1316, 1317, 5, 443, 222, 2, 1317, 1318, 5, 429, 215, 2, 1318, 1319, 5, 439, 220, 2, 1319, 1320, 5, 425, 213, 2, 1320, 1321, 5, 421, 211, 2, 1321, 1322, 5, 445, 223, 2, 1322, 1323, 5, 457, 229, 2, 1323, 1324, 5, 443, 222, 2, 1324, 1325, 5, 455, 228, 2, 1325, 1326, 5, 433, 217, 2, 1326, 1327, 5, 443, 222, 2, 1327, 1328, 5, 429, 215, 2, 1328, 284, 3, 2, 2, 2, 1329, 1330, 5, 421, 211, 2, 1330, 1331, 5, 439, 220, 2, 1331, 1332, 5, 445, 223, 2, 1332, 1333, 5, 453, 227, 2, 1333, 1334, 5, 425, 213, 2, 1334, 1335, 5, 443, 222, 2, 1335, 1336, 5, 425, 213, 2, 1336, 1337, 5, 453, 227, 2, 1337, 1338, 5, 453, 227, 2, 1338, 1339, 5, 421, 211, 2, 1339, 1340, 5, 425, 213, 2, 1340, 1341, 5, 443, 222, 2, 1341, 1342, 5, 455, 228, 2, 1342, 1343, 5, 451, 226, 2, 1343, 1344, 5, 417, 209, 2, 1344, 1345, 5, 439, 220, 2, 1345, 1346, 5, 433, 217, 2, 1346, 1347, 5, 455, 228, 2, 1347, 1348, 5, 465, 233, 2, 1348, 286, 3, 2, 2, 2, 1349, 1350, 5, 419, 210, 2, 1350, 1351, 5, 427, 214, 2, 1351, 1352, 5, 453, 227, 2, 1352, 1353, 5, 421, 211, 2, 1353, 1354, 5, 445, 223, 2, 1354, 1355, 5, 457, 229, 2, 1355, 1356, 5, 443, 222, 2, 1356, 1357, 5, 455, 228, 2, 1357, 288, 3, 2, 2, 2, 1358, 1359, 5, 447, 224, 2, 1359, 1360, 5, 451, 226, 2, 1360, 290, 3, 2, 2, 2, 1361, 1362, 5, 417, 209, 2, 1362, 1363, 5, 439, 220, 2, 1363, 1364, 5, 447, 224, 2, 1364, 1365, 5, 431, 216, 2, 1365, 1366, 5, 417, 209, 2, 1366, 292, 3, 2, 2, 2, 1367, 1368, 5, 441, 221, 2, 1368, 1369, 5, 417, 209, 2, 1369, 1370, 5, 463, 232, 2, 1370, 1371, 5, 433, 217, 2, 1371, 1372, 5, 455, 228, 2, 1372, 1373, 5, 425, 213, 2, 1373, 1374, 5, 451, 226, 2, 1374, 294, 3, 2, 2, 2, 1375, 1376, 5, 455, 228, 2, 1376, 1377, 5, 445, 223, 2, 1377, 1378, 5, 439, 220, 2, 1378, 296, 3, 2, 2, 2, 1379, 1380, 5, 453, 227, 2, 1380, 1381, 5, 453, 227, 2, 1381, 1382, 5, 453, 227, 2, 1382, 1383, 5, 447, 224, 2, 1383, 298, 3, 2, 2, 2, 1384, 1385, 5, 453, 227, 2, 1385, 1386, 5, 453, 227, 2, 1386, 1387, 5, 453, 227, 2, 1387, 1388, 5, 447, 224, 2, 1388, 1389, 5, 439, 220, 2, 1389, 1390, 5, 425, 213, 2, 1390, 1391, 5, 443, 222, 2, 1391, 300, 3, 2, 2, 2, 1392, 1393, 5, 439, 220, 2, 1393, 1394, 5, 417, 209, 2, 1394, 1395, 5, 419, 210, 2, 1395, 1396, 5, 425, 213, 2, 1396, 1397, 5, 439, 220, 2, 1397, 1398, 5, 447, 224, 2, 1398, 1399, 5, 451, 226, 2, 1399, 1400, 5, 445, 223, 2, 1400, 1401, 5, 447, 224, 2, 1401, 302, 3, 2, 2, 2, 1402, 1403, 5, 461, 231, 2, 1403, 1404, 5, 421, 211, 2, 1404, 1405, 5, 421, 211, 2, 1405, 304, 3, 2, 2, 2, 1406, 1407, 5, 421, 211, 2, 1407, 1408, 5, 439, 220, 2, 1408, 1409, 5, 457, 229, 2, 1409, 1410, 5, 453, 227, 2, 1410, 1411, 5, 455, 228, 2, 1411, 1412, 5, 425, 213, 2, 1412, 1413, 5, 451, 226, 2, 1413, 1414, 5, 421, 211, 2, 1414, 1415, 5, 445, 223, 2, 1415, 1416, 5, 425, 213, 2, 1416, 1417, 5, 427, 214, 2, 1417, 1418, 5, 427, 214, 2, 1418, 306, 3, 2, 2, 2, 1419, 1420, 5, 441, 221, 2, 1420, 1421, 5, 417, 209, 2, 1421, 1422, 5, 463, 232, 2, 1422, 1423, 5, 433, 217, 2, 1423, 1424, 5, 441, 221, 2, 1424, 1425, 5, 457, 229, 2, 1425, 1426, 5, 441, 221, 2, 1426, 1427, 5, 437, 219, 2, 1427, 1428, 5, 447, 224, 2, 1428, 1429, 5, 439, 220, 2, 1429, 1430, 5, 425, 213, 2, 1430, 1431, 5, 463, 232, 2, 1431, 308, 3, 2, 2, 2, 1432, 1433, 5, 421, 211, 2, 1433, 1434, 5, 445, 223, 2, 1434, 1435, 5, 451, 226, 2, 1435, 1436, 5, 425, 213, 2, 1436, 1437, 5, 455, 228, 2, 1437, 1438, 5, 451, 226, 2, 1438, 1439, 5, 457, 229, 2, 1439, 1440, 5, 453, 227, 2, 1440, 1441, 5, 453, 227, 2, 1441, 310, 3, 2, 2, 2, 1442, 1443, 5, 447, 224, 2, 1443, 1444, 5, 427, 214, 2, 1444, 1445, 5, 443, 222, 2, 1445, 312, 3, 2, 2, 2, 1446, 1447, 5, 437, 219, 2, 1447, 1448, 5, 431, 216, 2, 1448, 1449, 5, 445, 223, 2, 1449, 1450, 5, 447, 224, 2, 1450, 1451, 5, 421, 211, 2, 1451, 1452, 5, 445, 223, 2, 1452, 1453, 5, 457, 229, 2, 1453, 1454, 5, 443, 222, 2, 1454, 1455, 5, 455, 228, 2, 1455, 314, 3, 2, 2, 2, 1456, 1457, 5, 437, 219, 2, 1457, 1458, 5, 431, 216, 2, 1458, 1459, 5, 445, 223, 2, 1459, 1460, 5, 447, 224, 2, 1460, 1461, 5, 443, 222, 2, 1461, 1462, 5, 425, 213, 2, 1462, 1463, 5, 433, 217, 2, 1463, 1464, 5, 429, 215, 2, 1464, 1465, 5, 431, 216, 2, 1465, 1466, 5, 419, 210, 2, 1466, 1467, 5, 445, 223, 2, 1467, 1468, 5, 451, 226, 2, 1468, 316, 3, 2, 2, 2, 1469, 1470, 5, 453, 227, 2, 1470, 1471, 5, 431, 216, 2, 1471, 1472, 5, 445, 223, 2, 1472, 1473, 5, 451, 226, 2, 1473, 1474, 5, 455, 228, 2, 1474, 1475, 5, 425, 213, 2, 1475, 1476, 5, 453, 227, 2, 1476, 1477, 5, 455, 228, 2, 1477, 1478, 5, 447, 224, 2, 1478, 1479, 5, 417, 209, 2, 1479, 1480, 5, 455, 228, 2, 1480, 1481, 5, 431, 216, 2, 1481, 1482, 5, 421, 211, 2, 1482, 1483, 5, 445, 223, 2, 1483, 1484, 5, 457, 229, 2, 1484, 1485, 5, 443, 222, 2, 1485, 1486, 5, 455, 228, 2, 1486, 318, 3, 2, 2, 2, 1487, 1488, 5, 439, 220, 2, 1488, 1489, 5, 445, 223, 2, 1489, 1490, 5, 457, 229, 2, 1490, 1491, 5, 459, 230, 2, 1491, 1492, 5, 417, 209, 2, 1492, 1493, 5, 433, 217, 2, 1493, 1494, 5, 443, 222, 2, 1494, 320, 3, 2, 2, 2, 1495, 1496, 5, 433, 217, 2, 1496, 1497, 5, 421, 211, 2, 1497, 1498, 7, 51, 2, 2, 1498, 1499, 7, 54, 2, 2, 1499, 322, 3, 2, 2, 2, 1500, 1501, 5, 433, 217, 2, 1501, 1502, 5, 443, 222, 2, 1502, 1503, 5, 421, 211, 2, 1503, 1504, 5, 451, 226, 2, 1504, 1505, 5, 425, 213, 2, 1505, 1506, 5, 417, 209, 2, 1506, 1507, 5, 453, 227, 2, 1507, 1508, 5, 425, 213, 2, 1508, 324, 3, 2, 2, 2, 1509, 1510, 5, 433, 217, 2, 1510, 1511, 5, 443, 222, 2, 1511, 1512, 5, 453, 227, 2, 1512, 1513, 5, 425, 213, 2, 1513, 1514, 5, 451, 226, 2, 1514, 1515, 5, 455, 228, 2, 1515, 1516, 7, 34, 2, 2, 1516, 1517, 5, 423, 212, 2, 1517, 1518, 5, 417, 209, 2, 1518, 1519, 5, 455, 228, 2, 1519, 1520, 5, 417, 209, 2, 1520, 326, 3, 2, 2, 2, 1521, 1522, 5, 423, 212, 2, 1522, 1523, 5, 425, 213, 2, 1523, 1524, 5, 439, 220, 2, 1524, 1525, 5, 425, 213, 2, 1525, 1526, 5, 455, 228, 2, 1526, 1527, 5, 425, 213, 2, 1527, 1528, 7, 34, 2, 2, 1528, 1529, 5, 423, 212, 2, 1529, 1530, 5, 417, 209, 2, 1530, 1531, 5, 455, 228, 2, 1531, 1532, 5, 417, 209, 2, 1532, 328, 3, 2, 2, 2, 1533, 1534, 5, 423, 212, 2, 1534, 1535, 5, 425, 213, 2, 1535, 1536, 5, 439, 220, 2, 1536, 1537, 5, 425, 213, 2, 1537, 1538, 5, 455, 228, 2, 1538, 1539, 5, 425, 213, 2, 1539, 1540, 7, 34, 2, 2, 1540, 1541, 5, 461, 231, 2, 1541, 1542, 5, 431, 216, 2, 1542, 1543, 5, 425, 213, 2, 1543, 1544, 5, 451, 226, 2, 1544, 1545, 5, 425, 213, 2, 1545, 330, 3, 2, 2, 2, 1546, 1547, 5, 425, 213, 2, 1547, 1548, 5, 443, 222, 2, 1548, 1549, 5, 421, 211, 2, 1549, 1550, 5, 445, 223, 2, 1550, 1551, 5, 423, 212, 2, 1551, 1552, 5, 425, 213, 2, 1552, 1553, 7, 97, 2, 2, 1553, 1554, 5, 427, 214, 2, 1554, 1555, 5, 445, 223, 2, 1555, 1556, 5, 451, 226, 2, 1556, 1557, 7, 97, 2, 2, 1557, 1558, 5, 457, 229, 2, 1558, 1559, 5, 451, 226, 2, 1559, 1560, 5, 433, 217, 2, 1560, 332, 3, 2, 2, 2, 1561, 1562, 5, 441, 221, 2, 1562, 1563, 5, 423, 212, 2, 1563, 1564, 7, 55, 2, 2, 1564, 334, 3, 2, 2, 2, 1565, 1566, 5, 453, 227, 2, 1566, 1567, 5, 431, 216, 2, 1567, 1568, 5, 417, 209, 2, 1568, 1569, 7, 51, 2, 2, 1569, 336, 3, 2, 2, 2, 1570, 1571, 5, 453, 227, 2, 1571, 1572, 5, 431, 216, 2, 1572, 1573, 5, 417, 209, 2, 1573, 1574, 7, 52, 2, 2, 1574, 1575, 7, 55, 2, 2, 1575, 1576, 7, 56, 2, 2, 1576, 338, 3, 2, 2, 2, 1577, 1578, 5, 453, 227, 2, 1578, 1579, 5, 431, 216, 2, 1579, 1580, 5, 417, 209, 2, 1580, 1581, 7, 53, 2, 2, 1581, 1582, 7, 58, 2, 2, 1582, 1583, 7, 54, 2, 2, 1583, 340, 3, 2, 2, 2, 1584, 1585, 5, 453, 227, 2, 1585, 1586, 5, 431, 216, 2, 1586, 1587, 5, 417, 209, 2, 1587, 1588, 7, 55, 2, 2, 1588, 1589, 7, 51, 2, 2, 1589, 1590, 7, 52, 2, 2, 1590, 342, 3, 2, 2, 2, 1591, 1592, 5, 429, 215, 2, 1592, 1593, 5, 451, 226, 2, 1593, 1594, 5, 445, 223, 2, 1594, 1595, 5, 457, 229, 2, 1595, 1596, 5, 447, 224, 2, 1596, 1597, 7, 97, 2, 2, 1597, 1598, 5, 421, 211, 2, 1598, 1599, 5, 445, 223, 2, 1599, 1600, 5, 443, 222, 2, 1600, 1601, 5, 421, 211, 2, 1601, 1602, 5, 417, 209, 2, 1602, 1603, 5, 455, 228, 2, 1603, 344, 3, 2, 2, 2, 1604, 1608, 7, 62, 2, 2, 1605, 1607, 10, 2, 2, 2, 1606, 1605, 3, 2, 2, 2, 1607, 1610, 3, 2, 2, 2, 1608, 1606, 3, 2, 2, 2, 1608, 1609, 3, 2, 2, 2, 1609, 1611, 3, 2, 2, 2, 1610, 1608, 3, 2, 2, 2, 1611, 1612, 7, 64, 2, 2, 1612, 346, 3, 2, 2, 2, 1613, 1615, 5, 403, 202, 2, 1614, 1613, 3, 2, 2, 2, 1614, 1615, 3, 2, 2, 2, 1615, 1616, 3, 2, 2, 2, 1616, 1617, 7, 60, 2, 2, 1617, 348, 3, 2, 2, 2, 1618, 1619, 5, 347, 174, 2, 1619, 1620, 5, 405, 203, 2, 1620, 350, 3, 2, 2, 2, 1621, 1622, 7, 97, 2, 2, 1622, 1623, 7, 60, 2, 2, 1623, 1626, 3, 2, 2, 2, 1624, 1627, 5, 397, 199, 2, 1625, 1627, 9, 3, 2, 2, 1626, 1624, 3, 2, 2, 2, 1626, 1625, 3, 2, 2, 2, 1627, 1636, 3, 2, 2, 2, 1628, 1631, 5, 401, 201, 2, 1629, 1631, 7, 48, 2, 2, 1630, 1628, 3, 2, 2, 2, 1630, 1629, 3, 2, 2, 2, 1631, 1634, 3, 2, 2, 2, 1632, 1630, 3, 2, 2, 2, 1632, 1633, 3, 2, 2, 2, 1633, 1635, 3, 2, 2, 2, 1634, 1632, 3, 2, 2, 2, 1635, 1637, 5, 401, 201, 2, 1636, 1632, 3, 2, 2, 2, 1636, 1637, 3, 2, 2, 2, 1637, 352, 3, 2, 2, 2, 1638, 1639, 7, 65, 2, 2, 1639, 1640, 5, 399, 200, 2, 1640, 354, 3, 2, 2, 2, 1641, 1642, 7, 38, 2, 2, 1642, 1643, 5, 399, 200, 2, 1643, 356, 3, 2, 2, 2, 1644, 1646, 7, 66, 2, 2, 1645, 1647, 9, 4, 2, 2, 1646, 1645, 3, 2, 2, 2, 1647, 1648, 3, 2, 2, 2, 1648, 1646, 3, 2, 2, 2, 1648, 1649, 3, 2, 2, 2, 1649, 1658, 3, 2, 2, 2, 1650, 1652, 7, 47, 2, 2, 1651, 1653, 9, 5, 2, 2, 1652, 1651, 3, 2, 2, 2, 1653, 1654, 3, 2, 2, 2, 1654, 1652, 3, 2, 2, 2, 1654, 1655, 3, 2, 2, 2, 1655, 1657, 3, 2, 2, 2, 1656, 1650, 3, 2, 2, 2, 1657, 1660, 3, 2, 2, 2, 1658, 1656, 3, 2, 2, 2, 1658, 1659, 3, 2, 2, 2, 1659, 358, 3, 2, 2, 2, 1660, 1658, 3, 2, 2, 2, 1661, 1663, 9, 3, 2, 2, 1662, 1661, 3, 2, 2, 2, 1663, 1664, 3, 2, 2, 2, 1664, 1662, 3, 2, 2, 2, 1664, 1665, 3, 2, 2, 2, 1665, 360, 3, 2, 2, 2, 1666, 1668, 9, 3, 2, 2, 1667, 1666, 3, 2, 2, 2, 1668, 1671, 3, 2, 2, 2, 1669, 1667, 3, 2, 2, 2, 1669, 1670, 3, 2, 2, 2, 1670, 1672, 3, 2, 2, 2, 1671, 1669, 3, 2, 2, 2, 1672, 1674, 7, 48, 2, 2, 1673, 1675, 9, 3, 2, 2, 1674, 1673, 3, 2, 2, 2, 1675, 1676, 3, 2, 2, 2, 1676, 1674, 3, 2, 2, 2, 1676, 1677, 3, 2, 2, 2, 1677, 362, 3, 2, 2, 2, 1678, 1680, 9, 3, 2, 2, 1679, 1678, 3, 2, 2, 2, 1680, 1681, 3, 2, 2, 2, 1681, 1679, 3, 2, 2, 2, 1681, 1682, 3, 2, 2, 2, 1682, 1683, 3, 2, 2, 2, 1683, 1687, 7, 48, 2, 2, 1684, 1686, 9, 3, 2, 2, 1685, 1684, 3, 2, 2, 2, 1686, 1689, 3, 2, 2, 2, 1687, 1685, 3, 2, 2, 2, 1687, 1688, 3, 2, 2, 2, 1688, 1690, 3, 2, 2, 2, 1689, 1687, 3, 2, 2, 2, 1690, 1705, 5, 377, 189, 2, 1691, 1693, 7, 48, 2, 2, 1692, 1694, 9, 3, 2, 2, 1693, 1692, 3, 2, 2, 2, 1694, 1695, 3, 2, 2, 2, 1695, 1693, 3, 2, 2, 2, 1695, 1696, 3, 2, 2, 2, 1696, 1697, 3, 2, 2, 2, 1697, 1705, 5, 377, 189, 2, 1698, 1700, 9, 3, 2, 2, 1699, 1698, 3, 2, 2, 2, 1700, 1701, 3, 2, 2, 2, 1701, 1699, 3, 2, 2, 2, 1701, 1702, 3, 2, 2, 2, 1702, 1703, 3, 2, 2, 2, 1703, 1705, 5, 377, 189, 2, 1704, 1679, 3, 2, 2, 2, 1704, 1691, 3, 2, 2, 2, 1704, 1699, 3, 2, 2, 2, 1705, 364, 3, 2, 2, 2, 1706, 1707, 7, 45, 2, 2, 1707, 1708, 5, 359, 180, 2, 1708, 366, 3, 2, 2, 2, 1709, 1710, 7, 45, 2, 2, 1710, 1711, 5, 361, 181, 2, 1711, 368, 3, 2, 2, 2, 1712, 1713, 7, 45, 2, 2, 1713, 1714, 5, 363, 182, 2, 1714, 370, 3, 2, 2, 2, 1715, 1716, 7, 47, 2, 2, 1716, 1717, 5, 359, 180, 2, 1717, 372, 3, 2, 2, 2, 1718, 1719, 7, 47, 2, 2, 1719, 1720, 5, 361, 181, 2, 1720, 374, 3, 2, 2, 2, 1721, 1722, 7, 47, 2, 2, 1722, 1723, 5, 363, 182, 2, 1723, 376, 3, 2, 2, 2, 1724, 1726, 9, 6, 2, 2, 1725, 1727, 9, 7, 2, 2, 1726, 1725, 3, 2, 2, 2, 1726, 1727, 3, 2, 2, 2, 1727, 1729, 3, 2, 2, 2, 1728, 1730, 9, 3, 2, 2, 1729, 1728, 3, 2, 2, 2, 1730, 1731, 3, 2, 2, 2, 1731, 1729, 3, 2, 2, 2, 1731, 1732, 3, 2, 2, 2, 1732, 378, 3, 2, 2, 2, 1733, 1738, 7, 41, 2, 2, 1734, 1737, 10, 8, 2, 2, 1735, 1737, 5, 387, 194, 2, 1736, 1734, 3, 2, 2, 2, 1736, 1735, 3, 2, 2, 2, 1737, 1740, 3, 2, 2, 2, 1738, 1736, 3, 2, 2, 2, 1738, 1739, 3, 2, 2, 2, 1739, 1741, 3, 2, 2, 2, 1740, 1738, 3, 2, 2, 2, 1741, 1742, 7, 41, 2, 2, 1742, 380, 3, 2, 2, 2, 1743, 1748, 7, 36, 2, 2, 1744, 1747, 10, 9, 2, 2, 1745, 1747, 5, 387, 194, 2, 1746, 1744, 3, 2, 2, 2, 1746, 1745, 3, 2, 2, 2, 1747, 1750, 3, 2, 2, 2, 1748, 1746, 3, 2, 2, 2, 1748, 1749, 3, 2, 2, 2, 1749, 1751, 3, 2, 2, 2, 1750, 1748, 3, 2, 2, 2, 1751, 1752, 7, 36, 2, 2, 1752, 382, 3, 2, 2, 2, 1753, 1754, 7, 41, 2, 2, 1754, 1755, 7, 41, 2, 2, 1755, 1756, 7, 41, 2, 2, 1756, 1768, 3, 2, 2, 2, 1757, 1761, 7, 41, 2, 2, 1758, 1759, 7, 41, 2, 2, 1759, 1761, 7, 41, 2, 2, 1760, 1757, 3, 2, 2, 2, 1760, 1758, 3, 2, 2, 2, 1760, 1761, 3, 2, 2, 2, 1761, 1764, 3, 2, 2, 2, 1762, 1765, 9, 10, 2, 2, 1763, 1765, 5, 387, 194, 2, 1764, 1762, 3, 2, 2, 2, 1764, 1763, 3, 2, 2, 2, 1765, 1767, 3, 2, 2, 2, 1766, 1760, 3, 2, 2, 2, 1767, 1770, 3, 2, 2, 2, 1768, 1766, 3, 2, 2, 2, 1768, 1769, 3, 2, 2, 2, 1769, 1771, 3, 2, 2, 2, 1770, 1768, 3, 2, 2, 2, 1771, 1772, 7, 41, 2, 2, 1772, 1773, 7, 41, 2, 2, 1773, 1774, 7, 41, 2, 2, 1774, 384, 3, 2, 2, 2, 1775, 1776, 7, 36, 2, 2, 1776, 1777, 7, 36, 2, 2, 1777, 1778, 7, 36, 2, 2, 1778, 1790, 3, 2, 2, 2, 1779, 1783, 7, 36, 2, 2, 1780, 1781, 7, 36, 2, 2, 1781, 1783, 7, 36, 2, 2, 1782, 1779, 3, 2, 2, 2, 1782, 1780, 3, 2, 2, 2, 1782, 1783, 3, 2, 2, 2, 1783, 1786, 3, 2, 2, 2, 1784, 1787, 9, 11, 2, 2, 1785, 1787, 5, 387, 194, 2, 1786, 1784, 3, 2, 2, 2, 1786, 1785, 3, 2, 2, 2, 1787, 1789, 3, 2, 2, 2, 1788, 1782, 3, 2, 2, 2, 1789, 1792, 3, 2, 2, 2, 1790, 1788, 3, 2, 2, 2, 1790, 1791, 3, 2, 2, 2, 1791, 1793, 3, 2, 2, 2, 1792, 1790, 3, 2, 2, 2, 1793, 1794, 7, 36, 2, 2, 1794, 1795, 7, 36, 2, 2, 1795, 1796, 7, 36, 2, 2, 1796, 386, 3, 2, 2, 2, 1797, 1798, 7, 94, 2, 2, 1798, 1799, 9, 12, 2, 2, 1799, 388, 3, 2, 2, 2, 1800, 1804, 7, 42, 2, 2, 1801, 1803, 5, 391, 196, 2, 1802, 1801, 3, 2, 2, 2, 1803, 1806, 3, 2, 2, 2, 1804, 1802, 3, 2, 2, 2, 1804, 1805, 3, 2, 2, 2, 1805, 1807, 3, 2, 2, 2, 1806, 1804, 3, 2, 2, 2, 1807, 1808, 7, 43, 2, 2, 1808, 390, 3, 2, 2, 2, 1809, 1810, 9, 13, 2, 2, 1810, 1811, 3, 2, 2, 2, 1811, 1812, 8, 196, 2, 2, 1812, 392, 3, 2, 2, 2, 1813, 1817, 7, 93, 2, 2, 1814, 1816, 5, 391, 196, 2, 1815, 1814, 3, 2, 2, 2, 1816, 1819, 3, 2, 2, 2, 1817, 1815, 3, 2, 2, 2, 1817, 1818, 3, 2, 2, 2, 1818, 1820, 3, 2, 2, 2, 1819, 1817, 3, 2, 2, 2, 1820, 1821, 7, 95, 2, 2, 1821, 394, 3, 2, 2, 2, 1822, 1824, 9, 45, 2, 2, 1823, 1822, 3, 2, 2, 2, 1824, 396, 3, 2, 2, 2, 1825, 1828, 5, 395, 198, 2, 1826, 1828, 7, 97, 2, 2, 1827, 1825, 3, 2, 2, 2, 1827, 1826, 3, 2, 2, 2, 1828, 398, 3, 2, 2, 2, 1829, 1832, 5, 397, 199, 2, 1830, 1832, 9, 3, 2, 2, 1831, 1829, 3, 2, 2, 2, 1831, 1830, 3, 2, 2, 2, 1832, 1837, 3, 2, 2, 2, 1833, 1836, 5, 397, 199, 2, 1834, 1836, 9, 14, 2, 2, 1835, 1833, 3, 2, 2, 2, 1835, 1834, 3, 2, 2, 2, 1836, 1839, 3, 2, 2, 2, 1837, 1835, 3, 2, 2, 2, 1837, 1838, 3, 2, 2, 2, 1838, 400, 3, 2, 2, 2, 1839, 1837, 3, 2, 2, 2, 1840, 1843, 5, 397, 199, 2, 1841, 1843, 9, 15, 2, 2, 1842, 1840, 3, 2, 2, 2, 1842, 1841, 3, 2, 2, 2, 1843, 402, 3, 2, 2, 2, 1844, 1853, 5, 395, 198, 2, 1845, 1848, 5, 401, 201, 2, 1846, 1848, 7, 48, 2, 2, 1847, 1845, 3, 2, 2, 2, 1847, 1846, 3, 2, 2, 2, 1848, 1851, 3, 2, 2, 2, 1849, 1847, 3, 2, 2, 2, 1849, 1850, 3, 2, 2, 2, 1850, 1852, 3, 2, 2, 2, 1851, 1849, 3, 2, 2, 2, 1852, 1854, 5, 401, 201, 2, 1853, 1849, 3, 2, 2, 2, 1853, 1854, 3, 2, 2, 2, 1854, 404, 3, 2, 2, 2, 1855, 1859, 5, 397, 199, 2, 1856, 1859, 4, 50, 60, 2, 1857, 1859, 5, 407, 204, 2, 1858, 1855, 3, 2, 2, 2, 1858, 1856, 3, 2, 2, 2, 1858, 1857, 3, 2, 2, 2, 1859, 1873, 3, 2, 2, 2, 1860, 1864, 5, 401, 201, 2, 1861, 1864, 9, 16, 2, 2, 1862, 1864, 5, 407, 204, 2, 1863, 1860, 3, 2, 2, 2, 1863, 1861, 3, 2, 2, 2, 1863, 1862, 3, 2, 2, 2, 1864, 1867, 3, 2, 2, 2, 1865, 1863, 3, 2, 2, 2, 1865, 1866, 3, 2, 2, 2, 1866, 1871, 3, 2, 2, 2, 1867, 1865, 3, 2, 2, 2, 1868, 1872, 5, 401, 201, 2, 1869, 1872, 7, 60, 2, 2, 1870, 1872, 5, 407, 204, 2, 1871, 1868, 3, 2, 2, 2, 1871, 1869, 3, 2, 2, 2, 1871, 1870, 3, 2, 2, 2, 1872, 1874, 3, 2, 2, 2, 1873, 1865, 3, 2, 2, 2, 1873, 1874, 3, 2, 2, 2, 1874, 406, 3, 2, 2, 2, 1875, 1878, 5, 409, 205, 2, 1876, 1878, 5, 413, 207, 2, 1877, 1875, 3, 2, 2, 2, 1877, 1876, 3, 2, 2, 2, 1878, 408, 3, 2, 2, 2, 1879, 1880, 7, 39, 2, 2, 1880, 1881, 5, 411, 206, 2, 1881, 1882, 5, 411, 206, 2, 1882, 410, 3, 2, 2, 2, 1883, 1885, 9, 17, 2, 2, 1884, 1883, 3, 2, 2, 2, 1885, 412, 3, 2, 2, 2, 1886, 1887, 7, 94, 2, 2, 1887, 1888, 9, 18, 2, 2, 1888, 414, 3, 2, 2, 2, 1889, 1893, 7, 37, 2, 2, 1890, 1892, 10, 19, 2, 2, 1891, 1890, 3, 2, 2, 2, 1892, 1895, 3, 2, 2, 2, 1893, 1891, 3, 2, 2, 2, 1893, 1894, 3, 2, 2, 2, 1894, 1896, 3, 2, 2, 2, 1895, 1893, 3, 2, 2, 2, 1896, 1897, 8, 208, 3, 2, 1897, 416, 3, 2, 2, 2, 1898, 1899, 9, 20, 2, 2, 1899, 418, 3, 2, 2, 2, 1900, 1901, 9, 21, 2, 2, 1901, 420, 3, 2, 2, 2, 1902, 1903, 9, 22, 2, 2, 1903, 422, 3, 2, 2, 2, 1904, 1905, 9, 23, 2, 2, 1905, 424, 3, 2, 2, 2, 1906, 1907, 9, 6, 2, 2, 1907, 426, 3, 2, 2, 2, 1908, 1909, 9, 24, 2, 2, 1909, 428, 3, 2, 2, 2, 1910, 1911, 9, 25, 2, 2, 1911, 430, 3, 2, 2, 2, 1912, 1913, 9, 26, 2, 2, 1913, 432, 3, 2, 2, 2, 1914, 1915, 9, 27, 2, 2, 1915, 434, 3, 2, 2, 2, 1916, 1917, 9, 28, 2, 2, 1917, 436, 3, 2, 2, 2, 1918, 1919, 9, 29, 2, 2, 1919, 438, 3, 2, 2, 2, 1920, 1921, 9, 30, 2, 2, 1921, 440, 3, 2, 2, 2, 1922, 1923, 9, 31, 2, 2, 1923, 442, 3, 2, 2, 2, 1924, 1925, 9, 32, 2, 2, 1925, 444, 3, 2, 2, 2, 1926, 1927, 9, 33, 2, 2, 1927, 446, 3, 2, 2, 2, 1928, 1929, 9, 34, 2, 2, 1929, 448, 3, 2, 2, 2, 1930, 1931, 9, 35, 2, 2, 1931, 450, 3, 2, 2, 2, 1932, 1933, 9, 36, 2, 2, 1933, 452, 3, 2, 2, 2, 1934, 1935, 9, 37, 2, 2, 1935, 454, 3, 2, 2, 2, 1936, 1937, 9, 38, 2, 2, 1937, 456, 3, 2, 2, 2, 1938, 1939, 9, 39, 2, 2, 1939, 458, 3, 2, 2, 2, 1940, 1941, 9, 40, 2, 2, 1941, 460, 3, 2, 2, 2, 1942, 1943, 9, 41, 2, 2, 1943, 462, 3, 2, 2, 2, 1944, 1945, 9, 42, 2, 2, 1945, 464, 3, 2, 2, 2, 1946, 1947, 9, 43, 2, 2, 1947, 466, 3, 2, 2, 2, 1948, 1949, 9, 44, 2, 2, 1949, 468, 3, 2, 2, 2, 51, 2, 1608, 1614, 1626, 1630, 1632, 1636, 1648, 1654, 1658, 1664, 1669, 1676, 1681, 1687, 1695, 1701, 1704, 1726, 1731, 1736, 1738, 1746, 1748, 1760, 1764, 1768, 1782, 1786, 1790, 1804, 1817, 1823, 1827, 1831, 1835, 1837, 1842, 1847, 1849, 1853, 1858, 1863, 1865, 1871, 1873, 1877, 1884, 1893, 4, 8, 2, 2, 2, 3, 2]
\ No newline at end of file
+[3, 24715, 42794, 33075, 47597, 16764, 15335, 30598, 22884, 2, 209, 1950, 8, 1, 4, 2, 9, 2, 4, 3, 9, 3, 4, 4, 9, 4, 4, 5, 9, 5, 4, 6, 9, 6, 4, 7, 9, 7, 4, 8, 9, 8, 4, 9, 9, 9, 4, 10, 9, 10, 4, 11, 9, 11, 4, 12, 9, 12, 4, 13, 9, 13, 4, 14, 9, 14, 4, 15, 9, 15, 4, 16, 9, 16, 4, 17, 9, 17, 4, 18, 9, 18, 4, 19, 9, 19, 4, 20, 9, 20, 4, 21, 9, 21, 4, 22, 9, 22, 4, 23, 9, 23, 4, 24, 9, 24, 4, 25, 9, 25, 4, 26, 9, 26, 4, 27, 9, 27, 4, 28, 9, 28, 4, 29, 9, 29, 4, 30, 9, 30, 4, 31, 9, 31, 4, 32, 9, 32, 4, 33, 9, 33, 4, 34, 9, 34, 4, 35, 9, 35, 4, 36, 9, 36, 4, 37, 9, 37, 4, 38, 9, 38, 4, 39, 9, 39, 4, 40, 9, 40, 4, 41, 9, 41, 4, 42, 9, 42, 4, 43, 9, 43, 4, 44, 9, 44, 4, 45, 9, 45, 4, 46, 9, 46, 4, 47, 9, 47, 4, 48, 9, 48, 4, 49, 9, 49, 4, 50, 9, 50, 4, 51, 9, 51, 4, 52, 9, 52, 4, 53, 9, 53, 4, 54, 9, 54, 4, 55, 9, 55, 4, 56, 9, 56, 4, 57, 9, 57, 4, 58, 9, 58, 4, 59, 9, 59, 4, 60, 9, 60, 4, 61, 9, 61, 4, 62, 9, 62, 4, 63, 9, 63, 4, 64, 9, 64, 4, 65, 9, 65, 4, 66, 9, 66, 4, 67, 9, 67, 4, 68, 9, 68, 4, 69, 9, 69, 4, 70, 9, 70, 4, 71, 9, 71, 4, 72, 9, 72, 4, 73, 9, 73, 4, 74, 9, 74, 4, 75, 9, 75, 4, 76, 9, 76, 4, 77, 9, 77, 4, 78, 9, 78, 4, 79, 9, 79, 4, 80, 9, 80, 4, 81, 9, 81, 4, 82, 9, 82, 4, 83, 9, 83, 4, 84, 9, 84, 4, 85, 9, 85, 4, 86, 9, 86, 4, 87, 9, 87, 4, 88, 9, 88, 4, 89, 9, 89, 4, 90, 9, 90, 4, 91, 9, 91, 4, 92, 9, 92, 4, 93, 9, 93, 4, 94, 9, 94, 4, 95, 9, 95, 4, 96, 9, 96, 4, 97, 9, 97, 4, 98, 9, 98, 4, 99, 9, 99, 4, 100, 9, 100, 4, 101, 9, 101, 4, 102, 9, 102, 4, 103, 9, 103, 4, 104, 9, 104, 4, 105, 9, 105, 4, 106, 9, 106, 4, 107, 9, 107, 4, 108, 9, 108, 4, 109, 9, 109, 4, 110, 9, 110, 4, 111, 9, 111, 4, 112, 9, 112, 4, 113, 9, 113, 4, 114, 9, 114, 4, 115, 9, 115, 4, 116, 9, 116, 4, 117, 9, 117, 4, 118, 9, 118, 4, 119, 9, 119, 4, 120, 9, 120, 4, 121, 9, 121, 4, 122, 9, 122, 4, 123, 9, 123, 4, 124, 9, 124, 4, 125, 9, 125, 4, 126, 9, 126, 4, 127, 9, 127, 4, 128, 9, 128, 4, 129, 9, 129, 4, 130, 9, 130, 4, 131, 9, 131, 4, 132, 9, 132, 4, 133, 9, 133, 4, 134, 9, 134, 4, 135, 9, 135, 4, 136, 9, 136, 4, 137, 9, 137, 4, 138, 9, 138, 4, 139, 9, 139, 4, 140, 9, 140, 4, 141, 9, 141, 4, 142, 9, 142, 4, 143, 9, 143, 4, 144, 9, 144, 4, 145, 9, 145, 4, 146, 9, 146, 4, 147, 9, 147, 4, 148, 9, 148, 4, 149, 9, 149, 4, 150, 9, 150, 4, 151, 9, 151, 4, 152, 9, 152, 4, 153, 9, 153, 4, 154, 9, 154, 4, 155, 9, 155, 4, 156, 9, 156, 4, 157, 9, 157, 4, 158, 9, 158, 4, 159, 9, 159, 4, 160, 9, 160, 4, 161, 9, 161, 4, 162, 9, 162, 4, 163, 9, 163, 4, 164, 9, 164, 4, 165, 9, 165, 4, 166, 9, 166, 4, 167, 9, 167, 4, 168, 9, 168, 4, 169, 9, 169, 4, 170, 9, 170, 4, 171, 9, 171, 4, 172, 9, 172, 4, 173, 9, 173, 4, 174, 9, 174, 4, 175, 9, 175, 4, 176, 9, 176, 4, 177, 9, 177, 4, 178, 9, 178, 4, 179, 9, 179, 4, 180, 9, 180, 4, 181, 9, 181, 4, 182, 9, 182, 4, 183, 9, 183, 4, 184, 9, 184, 4, 185, 9, 185, 4, 186, 9, 186, 4, 187, 9, 187, 4, 188, 9, 188, 4, 189, 9, 189, 4, 190, 9, 190, 4, 191, 9, 191, 4, 192, 9, 192, 4, 193, 9, 193, 4, 194, 9, 194, 4, 195, 9, 195, 4, 196, 9, 196, 4, 197, 9, 197, 4, 198, 9, 198, 4, 199, 9, 199, 4, 200, 9, 200, 4, 201, 9, 201, 4, 202, 9, 202, 4, 203, 9, 203, 4, 204, 9, 204, 4, 205, 9, 205, 4, 206, 9, 206, 4, 207, 9, 207, 4, 208, 9, 208, 4, 209, 9, 209, 4, 210, 9, 210, 4, 211, 9, 211, 4, 212, 9, 212, 4, 213, 9, 213, 4, 214, 9, 214, 4, 215, 9, 215, 4, 216, 9, 216, 4, 217, 9, 217, 4, 218, 9, 218, 4, 219, 9, 219, 4, 220, 9, 220, 4, 221, 9, 221, 4, 222, 9, 222, 4, 223, 9, 223, 4, 224, 9, 224, 4, 225, 9, 225, 4, 226, 9, 226, 4, 227, 9, 227, 4, 228, 9, 228, 4, 229, 9, 229, 4, 230, 9, 230, 4, 231, 9, 231, 4, 232, 9, 232, 4, 233, 9, 233, 4, 234, 9, 234, 3, 2, 3, 2, 3, 3, 3, 3, 3, 4, 3, 4, 3, 5, 3, 5, 3, 6, 3, 6, 3, 7, 3, 7, 3, 8, 3, 8, 3, 9, 3, 9, 3, 10, 3, 10, 3, 11, 3, 11, 3, 12, 3, 12, 3, 13, 3, 13, 3, 14, 3, 14, 3, 15, 3, 15, 3, 16, 3, 16, 3, 17, 3, 17, 3, 18, 3, 18, 3, 19, 3, 19, 3, 19, 3, 20, 3, 20, 3, 20, 3, 21, 3, 21, 3, 22, 3, 22, 3, 22, 3, 23, 3, 23, 3, 24, 3, 24, 3, 25, 3, 25, 3, 25, 3, 26, 3, 26, 3, 26, 3, 27, 3, 27, 3, 28, 3, 28, 3, 28, 3, 29, 3, 29, 3, 29, 3, 29, 3, 29, 3, 30, 3, 30, 3, 30, 3, 30, 3, 30, 3, 30, 3, 31, 3, 31, 3, 31, 3, 31, 3, 32, 3, 32, 3, 32, 3, 32, 3, 32, 3, 33, 3, 33, 3, 33, 3, 33, 3, 33, 3, 33, 3, 34, 3, 34, 3, 34, 3, 35, 3, 35, 3, 35, 3, 35, 3, 36, 3, 36, 3, 36, 3, 36, 3, 37, 3, 37, 3, 37, 3, 37, 3, 37, 3, 37, 3, 37, 3, 38, 3, 38, 3, 38, 3, 39, 3, 39, 3, 39, 3, 39, 3, 39, 3, 39, 3, 40, 3, 40, 3, 40, 3, 40, 3, 40, 3, 40, 3, 40, 3, 41, 3, 41, 3, 41, 3, 41, 3, 41, 3, 41, 3, 42, 3, 42, 3, 42, 3, 42, 3, 42, 3, 42, 3, 42, 3, 42, 3, 43, 3, 43, 3, 43, 3, 43, 3, 43, 3, 43, 3, 43, 3, 44, 3, 44, 3, 44, 3, 44, 3, 44, 3, 44, 3, 45, 3, 45, 3, 45, 3, 46, 3, 46, 3, 46, 3, 46, 3, 46, 3, 47, 3, 47, 3, 47, 3, 47, 3, 47, 3, 48, 3, 48, 3, 48, 3, 48, 3, 48, 3, 48, 3, 49, 3, 49, 3, 49, 3, 49, 3, 49, 3, 49, 3, 49, 3, 49, 3, 49, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 51, 3, 51, 3, 51, 3, 51, 3, 51, 3, 51, 3, 51, 3, 51, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 53, 3, 53, 3, 53, 3, 53, 3, 54, 3, 54, 3, 54, 3, 54, 3, 54, 3, 54, 3, 55, 3, 55, 3, 55, 3, 55, 3, 55, 3, 55, 3, 56, 3, 56, 3, 56, 3, 56, 3, 56, 3, 56, 3, 56, 3, 56, 3, 56, 3, 57, 3, 57, 3, 57, 3, 57, 3, 58, 3, 58, 3, 58, 3, 58, 3, 58, 3, 58, 3, 58, 3, 58, 3, 59, 3, 59, 3, 59, 3, 59, 3, 59, 3, 60, 3, 60, 3, 60, 3, 60, 3, 60, 3, 61, 3, 61, 3, 61, 3, 61, 3, 61, 3, 61, 3, 62, 3, 62, 3, 62, 3, 62, 3, 62, 3, 63, 3, 63, 3, 63, 3, 64, 3, 64, 3, 64, 3, 64, 3, 65, 3, 65, 3, 65, 3, 65, 3, 66, 3, 66, 3, 66, 3, 66, 3, 66, 3, 67, 3, 67, 3, 67, 3, 68, 3, 68, 3, 68, 3, 68, 3, 68, 3, 69, 3, 69, 3, 69, 3, 69, 3, 69, 3, 70, 3, 70, 3, 70, 3, 70, 3, 70, 3, 71, 3, 71, 3, 71, 3, 71, 3, 71, 3, 71, 3, 72, 3, 72, 3, 72, 3, 72, 3, 72, 3, 72, 3, 73, 3, 73, 3, 73, 3, 73, 3, 74, 3, 74, 3, 74, 3, 74, 3, 74, 3, 74, 3, 74, 3, 75, 3, 75, 3, 75, 3, 75, 3, 75, 3, 75, 3, 76, 3, 76, 3, 76, 3, 76, 3, 76, 3, 76, 3, 76, 3, 76, 3, 77, 3, 77, 3, 77, 3, 77, 3, 77, 3, 77, 3, 78, 3, 78, 3, 78, 3, 78, 3, 78, 3, 78, 3, 78, 3, 78, 3, 78, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 80, 3, 80, 3, 80, 3, 80, 3, 81, 3, 81, 3, 81, 3, 81, 3, 81, 3, 82, 3, 82, 3, 82, 3, 82, 3, 82, 3, 82, 3, 82, 3, 83, 3, 83, 3, 83, 3, 83, 3, 83, 3, 83, 3, 83, 3, 83, 3, 83, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 85, 3, 85, 3, 85, 3, 85, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 87, 3, 87, 3, 87, 3, 87, 3, 87, 3, 87, 3, 87, 3, 87, 3, 87, 3, 88, 3, 88, 3, 88, 3, 88, 3, 88, 3, 88, 3, 88, 3, 89, 3, 89, 3, 89, 3, 89, 3, 89, 3, 90, 3, 90, 3, 90, 3, 90, 3, 90, 3, 90, 3, 90, 3, 91, 3, 91, 3, 91, 3, 91, 3, 91, 3, 92, 3, 92, 3, 92, 3, 92, 3, 93, 3, 93, 3, 93, 3, 93, 3, 93, 3, 93, 3, 93, 3, 94, 3, 94, 3, 94, 3, 94, 3, 94, 3, 94, 3, 95, 3, 95, 3, 95, 3, 95, 3, 96, 3, 96, 3, 96, 3, 96, 3, 96, 3, 96, 3, 96, 3, 96, 3, 97, 3, 97, 3, 97, 3, 97, 3, 97, 3, 97, 3, 97, 3, 98, 3, 98, 3, 98, 3, 98, 3, 98, 3, 98, 3, 98, 3, 98, 3, 98, 3, 99, 3, 99, 3, 99, 3, 99, 3, 99, 3, 99, 3, 99, 3, 100, 3, 100, 3, 100, 3, 100, 3, 100, 3, 100, 3, 100, 3, 100, 3, 101, 3, 101, 3, 101, 3, 101, 3, 101, 3, 101, 3, 101, 3, 101, 3, 102, 3, 102, 3, 102, 3, 102, 3, 102, 3, 102, 3, 103, 3, 103, 3, 103, 3, 103, 3, 103, 3, 103, 3, 103, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 105, 3, 105, 3, 105, 3, 105, 3, 106, 3, 106, 3, 106, 3, 106, 3, 106, 3, 106, 3, 106, 3, 107, 3, 107, 3, 107, 3, 107, 3, 107, 3, 107, 3, 107, 3, 107, 3, 108, 3, 108, 3, 108, 3, 108, 3, 108, 3, 108, 3, 109, 3, 109, 3, 109, 3, 109, 3, 109, 3, 109, 3, 110, 3, 110, 3, 110, 3, 110, 3, 110, 3, 110, 3, 111, 3, 111, 3, 111, 3, 111, 3, 111, 3, 111, 3, 111, 3, 111, 3, 112, 3, 112, 3, 112, 3, 112, 3, 113, 3, 113, 3, 113, 3, 113, 3, 113, 3, 113, 3, 113, 3, 113, 3, 113, 3, 114, 3, 114, 3, 114, 3, 114, 3, 114, 3, 114, 3, 114, 3, 115, 3, 115, 3, 115, 3, 115, 3, 115, 3, 115, 3, 116, 3, 116, 3, 116, 3, 116, 3, 117, 3, 117, 3, 117, 3, 117, 3, 117, 3, 117, 3, 117, 3, 117, 3, 118, 3, 118, 3, 118, 3, 118, 3, 118, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 120, 3, 120, 3, 120, 3, 120, 3, 120, 3, 120, 3, 121, 3, 121, 3, 121, 3, 122, 3, 122, 3, 122, 3, 122, 3, 122, 3, 122, 3, 123, 3, 123, 3, 123, 3, 123, 3, 123, 3, 124, 3, 124, 3, 124, 3, 124, 3, 124, 3, 124, 3, 125, 3, 125, 3, 125, 3, 125, 3, 125, 3, 125, 3, 126, 3, 126, 3, 126, 3, 126, 3, 126, 3, 126, 3, 126, 3, 126, 3, 126, 3, 127, 3, 127, 3, 127, 3, 127, 3, 127, 3, 127, 3, 127, 3, 128, 3, 128, 3, 128, 3, 128, 3, 128, 3, 128, 3, 129, 3, 129, 3, 129, 3, 129, 3, 129, 3, 129, 3, 129, 3, 129, 3, 129, 3, 130, 3, 130, 3, 130, 3, 130, 3, 130, 3, 130, 3, 131, 3, 131, 3, 131, 3, 131, 3, 131, 3, 131, 3, 131, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 141, 3, 141, 3, 141, 3, 141, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 144, 3, 144, 3, 144, 3, 144, 3, 144, 3, 144, 3, 144, 3, 144, 3, 144, 3, 145, 3, 145, 3, 145, 3, 146, 3, 146, 3, 146, 3, 146, 3, 146, 3, 146, 3, 147, 3, 147, 3, 147, 3, 147, 3, 147, 3, 147, 3, 147, 3, 147, 3, 148, 3, 148, 3, 148, 3, 148, 3, 149, 3, 149, 3, 149, 3, 149, 3, 149, 3, 150, 3, 150, 3, 150, 3, 150, 3, 150, 3, 150, 3, 150, 3, 150, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 152, 3, 152, 3, 152, 3, 152, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 156, 3, 156, 3, 156, 3, 156, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 160, 3, 160, 3, 160, 3, 160, 3, 160, 3, 160, 3, 160, 3, 160, 3, 161, 3, 161, 3, 161, 3, 161, 3, 161, 3, 162, 3, 162, 3, 162, 3, 162, 3, 162, 3, 162, 3, 162, 3, 162, 3, 162, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 167, 3, 167, 3, 167, 3, 167, 3, 168, 3, 168, 3, 168, 3, 168, 3, 168, 3, 169, 3, 169, 3, 169, 3, 169, 3, 169, 3, 169, 3, 169, 3, 170, 3, 170, 3, 170, 3, 170, 3, 170, 3, 170, 3, 170, 3, 171, 3, 171, 3, 171, 3, 171, 3, 171, 3, 171, 3, 171, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 173, 3, 173, 7, 173, 1607, 10, 173, 12, 173, 14, 173, 1610, 11, 173, 3, 173, 3, 173, 3, 174, 5, 174, 1615, 10, 174, 3, 174, 3, 174, 3, 175, 3, 175, 3, 175, 3, 176, 3, 176, 3, 176, 3, 176, 3, 176, 5, 176, 1627, 10, 176, 3, 176, 3, 176, 7, 176, 1631, 10, 176, 12, 176, 14, 176, 1634, 11, 176, 3, 176, 5, 176, 1637, 10, 176, 3, 177, 3, 177, 3, 177, 3, 178, 3, 178, 3, 178, 3, 179, 3, 179, 6, 179, 1647, 10, 179, 13, 179, 14, 179, 1648, 3, 179, 3, 179, 6, 179, 1653, 10, 179, 13, 179, 14, 179, 1654, 7, 179, 1657, 10, 179, 12, 179, 14, 179, 1660, 11, 179, 3, 180, 6, 180, 1663, 10, 180, 13, 180, 14, 180, 1664, 3, 181, 7, 181, 1668, 10, 181, 12, 181, 14, 181, 1671, 11, 181, 3, 181, 3, 181, 6, 181, 1675, 10, 181, 13, 181, 14, 181, 1676, 3, 182, 6, 182, 1680, 10, 182, 13, 182, 14, 182, 1681, 3, 182, 3, 182, 7, 182, 1686, 10, 182, 12, 182, 14, 182, 1689, 11, 182, 3, 182, 3, 182, 3, 182, 6, 182, 1694, 10, 182, 13, 182, 14, 182, 1695, 3, 182, 3, 182, 6, 182, 1700, 10, 182, 13, 182, 14, 182, 1701, 3, 182, 5, 182, 1705, 10, 182, 3, 183, 3, 183, 3, 183, 3, 184, 3, 184, 3, 184, 3, 185, 3, 185, 3, 185, 3, 186, 3, 186, 3, 186, 3, 187, 3, 187, 3, 187, 3, 188, 3, 188, 3, 188, 3, 189, 3, 189, 5, 189, 1727, 10, 189, 3, 189, 6, 189, 1730, 10, 189, 13, 189, 14, 189, 1731, 3, 190, 3, 190, 3, 190, 7, 190, 1737, 10, 190, 12, 190, 14, 190, 1740, 11, 190, 3, 190, 3, 190, 3, 191, 3, 191, 3, 191, 7, 191, 1747, 10, 191, 12, 191, 14, 191, 1750, 11, 191, 3, 191, 3, 191, 3, 192, 3, 192, 3, 192, 3, 192, 3, 192, 3, 192, 3, 192, 5, 192, 1761, 10, 192, 3, 192, 3, 192, 5, 192, 1765, 10, 192, 7, 192, 1767, 10, 192, 12, 192, 14, 192, 1770, 11, 192, 3, 192, 3, 192, 3, 192, 3, 192, 3, 193, 3, 193, 3, 193, 3, 193, 3, 193, 3, 193, 3, 193, 5, 193, 1783, 10, 193, 3, 193, 3, 193, 5, 193, 1787, 10, 193, 7, 193, 1789, 10, 193, 12, 193, 14, 193, 1792, 11, 193, 3, 193, 3, 193, 3, 193, 3, 193, 3, 194, 3, 194, 3, 194, 3, 195, 3, 195, 7, 195, 1803, 10, 195, 12, 195, 14, 195, 1806, 11, 195, 3, 195, 3, 195, 3, 196, 3, 196, 3, 196, 3, 196, 3, 197, 3, 197, 7, 197, 1816, 10, 197, 12, 197, 14, 197, 1819, 11, 197, 3, 197, 3, 197, 3, 198, 5, 198, 1824, 10, 198, 3, 199, 3, 199, 5, 199, 1828, 10, 199, 3, 200, 3, 200, 5, 200, 1832, 10, 200, 3, 200, 3, 200, 7, 200, 1836, 10, 200, 12, 200, 14, 200, 1839, 11, 200, 3, 201, 3, 201, 5, 201, 1843, 10, 201, 3, 202, 3, 202, 3, 202, 7, 202, 1848, 10, 202, 12, 202, 14, 202, 1851, 11, 202, 3, 202, 5, 202, 1854, 10, 202, 3, 203, 3, 203, 3, 203, 5, 203, 1859, 10, 203, 3, 203, 3, 203, 3, 203, 7, 203, 1864, 10, 203, 12, 203, 14, 203, 1867, 11, 203, 3, 203, 3, 203, 3, 203, 5, 203, 1872, 10, 203, 5, 203, 1874, 10, 203, 3, 204, 3, 204, 5, 204, 1878, 10, 204, 3, 205, 3, 205, 3, 205, 3, 205, 3, 206, 5, 206, 1885, 10, 206, 3, 207, 3, 207, 3, 207, 3, 208, 3, 208, 7, 208, 1892, 10, 208, 12, 208, 14, 208, 1895, 11, 208, 3, 208, 3, 208, 3, 209, 3, 209, 3, 210, 3, 210, 3, 211, 3, 211, 3, 212, 3, 212, 3, 213, 3, 213, 3, 214, 3, 214, 3, 215, 3, 215, 3, 216, 3, 216, 3, 217, 3, 217, 3, 218, 3, 218, 3, 219, 3, 219, 3, 220, 3, 220, 3, 221, 3, 221, 3, 222, 3, 222, 3, 223, 3, 223, 3, 224, 3, 224, 3, 225, 3, 225, 3, 226, 3, 226, 3, 227, 3, 227, 3, 228, 3, 228, 3, 229, 3, 229, 3, 230, 3, 230, 3, 231, 3, 231, 3, 232, 3, 232, 3, 233, 3, 233, 3, 234, 3, 234, 2, 2, 235, 3, 3, 5, 4, 7, 5, 9, 6, 11, 7, 13, 8, 15, 9, 17, 10, 19, 11, 21, 12, 23, 13, 25, 14, 27, 15, 29, 16, 31, 17, 33, 18, 35, 19, 37, 20, 39, 21, 41, 22, 43, 23, 45, 24, 47, 25, 49, 26, 51, 27, 53, 28, 55, 29, 57, 30, 59, 31, 61, 32, 63, 33, 65, 34, 67, 35, 69, 36, 71, 37, 73, 38, 75, 39, 77, 40, 79, 41, 81, 42, 83, 43, 85, 44, 87, 45, 89, 46, 91, 47, 93, 48, 95, 49, 97, 50, 99, 51, 101, 52, 103, 53, 105, 54, 107, 55, 109, 56, 111, 57, 113, 58, 115, 59, 117, 60, 119, 61, 121, 62, 123, 63, 125, 64, 127, 65, 129, 66, 131, 67, 133, 68, 135, 69, 137, 70, 139, 71, 141, 72, 143, 73, 145, 74, 147, 75, 149, 76, 151, 77, 153, 78, 155, 79, 157, 80, 159, 81, 161, 82, 163, 83, 165, 84, 167, 85, 169, 86, 171, 87, 173, 88, 175, 89, 177, 90, 179, 91, 181, 92, 183, 93, 185, 94, 187, 95, 189, 96, 191, 97, 193, 98, 195, 99, 197, 100, 199, 101, 201, 102, 203, 103, 205, 104, 207, 105, 209, 106, 211, 107, 213, 108, 215, 109, 217, 110, 219, 111, 221, 112, 223, 113, 225, 114, 227, 115, 229, 116, 231, 117, 233, 118, 235, 119, 237, 120, 239, 121, 241, 122, 243, 123, 245, 124, 247, 125, 249, 126, 251, 127, 253, 128, 255, 129, 257, 130, 259, 131, 261, 132, 263, 133, 265, 134, 267, 135, 269, 136, 271, 137, 273, 138, 275, 139, 277, 140, 279, 141, 281, 142, 283, 143, 285, 144, 287, 145, 289, 146, 291, 147, 293, 148, 295, 149, 297, 150, 299, 151, 301, 152, 303, 153, 305, 154, 307, 155, 309, 156, 311, 157, 313, 158, 315, 159, 317, 160, 319, 161, 321, 162, 323, 163, 325, 164, 327, 165, 329, 166, 331, 167, 333, 168, 335, 169, 337, 170, 339, 171, 341, 172, 343, 173, 345, 174, 347, 175, 349, 176, 351, 177, 353, 178, 355, 179, 357, 180, 359, 181, 361, 182, 363, 183, 365, 184, 367, 185, 369, 186, 371, 187, 373, 188, 375, 189, 377, 190, 379, 191, 381, 192, 383, 193, 385, 194, 387, 195, 389, 196, 391, 197, 393, 198, 395, 199, 397, 200, 399, 201, 401, 202, 403, 203, 405, 204, 407, 205, 409, 206, 411, 207, 413, 208, 415, 209, 417, 2, 419, 2, 421, 2, 423, 2, 425, 2, 427, 2, 429, 2, 431, 2, 433, 2, 435, 2, 437, 2, 439, 2, 441, 2, 443, 2, 445, 2, 447, 2, 449, 2, 451, 2, 453, 2, 455, 2, 457, 2, 459, 2, 461, 2, 463, 2, 465, 2, 467, 2, 3, 2, 45, 10, 2, 2, 34, 36, 36, 62, 62, 64, 64, 94, 94, 96, 96, 98, 98, 125, 127, 3, 2, 50, 59, 4, 2, 67, 92, 99, 124, 5, 2, 50, 59, 67, 92, 99, 124, 4, 2, 71, 71, 103, 103, 4, 2, 45, 45, 47, 47, 6, 2, 12, 12, 15, 15, 41, 41, 94, 94, 6, 2, 12, 12, 15, 15, 36, 36, 94, 94, 4, 2, 41, 41, 94, 94, 4, 2, 36, 36, 94, 94, 10, 2, 36, 36, 41, 41, 94, 94, 100, 100, 104, 104, 112, 112, 116, 116, 118, 118, 5, 2, 11, 12, 15, 15, 34, 34, 6, 2, 50, 59, 185, 185, 770, 881, 8257, 8258, 7, 2, 47, 47, 50, 59, 185, 185, 770, 881, 8257, 8258, 4, 2, 48, 48, 60, 60, 5, 2, 50, 59, 67, 72, 99, 104, 9, 2, 35, 35, 37, 49, 61, 61, 63, 63, 65, 66, 97, 97, 128, 128, 4, 2, 12, 12, 15, 15, 4, 2, 67, 67, 99, 99, 4, 2, 68, 68, 100, 100, 4, 2, 69, 69, 101, 101, 4, 2, 70, 70, 102, 102, 4, 2, 72, 72, 104, 104, 4, 2, 73, 73, 105, 105, 4, 2, 74, 74, 106, 106, 4, 2, 75, 75, 107, 107, 4, 2, 76, 76, 108, 108, 4, 2, 77, 77, 109, 109, 4, 2, 78, 78, 110, 110, 4, 2, 79, 79, 111, 111, 4, 2, 80, 80, 112, 112, 4, 2, 81, 81, 113, 113, 4, 2, 82, 82, 114, 114, 4, 2, 83, 83, 115, 115, 4, 2, 84, 84, 116, 116, 4, 2, 85, 85, 117, 117, 4, 2, 86, 86, 118, 118, 4, 2, 87, 87, 119, 119, 4, 2, 88, 88, 120, 120, 4, 2, 89, 89, 121, 121, 4, 2, 90, 90, 122, 122, 4, 2, 91, 91, 123, 123, 4, 2, 92, 92, 124, 124, 3, 16, 2, 67, 2, 92, 2, 99, 2, 124, 2, 194, 2, 216, 2, 218, 2, 248, 2, 250, 2, 769, 2, 882, 2, 895, 2, 897, 2, 8193, 2, 8206, 2, 8207, 2, 8306, 2, 8593, 2, 11266, 2, 12273, 2, 12291, 2, 55297, 2, 63746, 2, 64977, 2, 65010, 2, 65535, 2, 2, 3, 1, 16, 1975, 2, 3, 3, 2, 2, 2, 2, 5, 3, 2, 2, 2, 2, 7, 3, 2, 2, 2, 2, 9, 3, 2, 2, 2, 2, 11, 3, 2, 2, 2, 2, 13, 3, 2, 2, 2, 2, 15, 3, 2, 2, 2, 2, 17, 3, 2, 2, 2, 2, 19, 3, 2, 2, 2, 2, 21, 3, 2, 2, 2, 2, 23, 3, 2, 2, 2, 2, 25, 3, 2, 2, 2, 2, 27, 3, 2, 2, 2, 2, 29, 3, 2, 2, 2, 2, 31, 3, 2, 2, 2, 2, 33, 3, 2, 2, 2, 2, 35, 3, 2, 2, 2, 2, 37, 3, 2, 2, 2, 2, 39, 3, 2, 2, 2, 2, 41, 3, 2, 2, 2, 2, 43, 3, 2, 2, 2, 2, 45, 3, 2, 2, 2, 2, 47, 3, 2, 2, 2, 2, 49, 3, 2, 2, 2, 2, 51, 3, 2, 2, 2, 2, 53, 3, 2, 2, 2, 2, 55, 3, 2, 2, 2, 2, 57, 3, 2, 2, 2, 2, 59, 3, 2, 2, 2, 2, 61, 3, 2, 2, 2, 2, 63, 3, 2, 2, 2, 2, 65, 3, 2, 2, 2, 2, 67, 3, 2, 2, 2, 2, 69, 3, 2, 2, 2, 2, 71, 3, 2, 2, 2, 2, 73, 3, 2, 2, 2, 2, 75, 3, 2, 2, 2, 2, 77, 3, 2, 2, 2, 2, 79, 3, 2, 2, 2, 2, 81, 3, 2, 2, 2, 2, 83, 3, 2, 2, 2, 2, 85, 3, 2, 2, 2, 2, 87, 3, 2, 2, 2, 2, 89, 3, 2, 2, 2, 2, 91, 3, 2, 2, 2, 2, 93, 3, 2, 2, 2, 2, 95, 3, 2, 2, 2, 2, 97, 3, 2, 2, 2, 2, 99, 3, 2, 2, 2, 2, 101, 3, 2, 2, 2, 2, 103, 3, 2, 2, 2, 2, 105, 3, 2, 2, 2, 2, 107, 3, 2, 2, 2, 2, 109, 3, 2, 2, 2, 2, 111, 3, 2, 2, 2, 2, 113, 3, 2, 2, 2, 2, 115, 3, 2, 2, 2, 2, 117, 3, 2, 2, 2, 2, 119, 3, 2, 2, 2, 2, 121, 3, 2, 2, 2, 2, 123, 3, 2, 2, 2, 2, 125, 3, 2, 2, 2, 2, 127, 3, 2, 2, 2, 2, 129, 3, 2, 2, 2, 2, 131, 3, 2, 2, 2, 2, 133, 3, 2, 2, 2, 2, 135, 3, 2, 2, 2, 2, 137, 3, 2, 2, 2, 2, 139, 3, 2, 2, 2, 2, 141, 3, 2, 2, 2, 2, 143, 3, 2, 2, 2, 2, 145, 3, 2, 2, 2, 2, 147, 3, 2, 2, 2, 2, 149, 3, 2, 2, 2, 2, 151, 3, 2, 2, 2, 2, 153, 3, 2, 2, 2, 2, 155, 3, 2, 2, 2, 2, 157, 3, 2, 2, 2, 2, 159, 3, 2, 2, 2, 2, 161, 3, 2, 2, 2, 2, 163, 3, 2, 2, 2, 2, 165, 3, 2, 2, 2, 2, 167, 3, 2, 2, 2, 2, 169, 3, 2, 2, 2, 2, 171, 3, 2, 2, 2, 2, 173, 3, 2, 2, 2, 2, 175, 3, 2, 2, 2, 2, 177, 3, 2, 2, 2, 2, 179, 3, 2, 2, 2, 2, 181, 3, 2, 2, 2, 2, 183, 3, 2, 2, 2, 2, 185, 3, 2, 2, 2, 2, 187, 3, 2, 2, 2, 2, 189, 3, 2, 2, 2, 2, 191, 3, 2, 2, 2, 2, 193, 3, 2, 2, 2, 2, 195, 3, 2, 2, 2, 2, 197, 3, 2, 2, 2, 2, 199, 3, 2, 2, 2, 2, 201, 3, 2, 2, 2, 2, 203, 3, 2, 2, 2, 2, 205, 3, 2, 2, 2, 2, 207, 3, 2, 2, 2, 2, 209, 3, 2, 2, 2, 2, 211, 3, 2, 2, 2, 2, 213, 3, 2, 2, 2, 2, 215, 3, 2, 2, 2, 2, 217, 3, 2, 2, 2, 2, 219, 3, 2, 2, 2, 2, 221, 3, 2, 2, 2, 2, 223, 3, 2, 2, 2, 2, 225, 3, 2, 2, 2, 2, 227, 3, 2, 2, 2, 2, 229, 3, 2, 2, 2, 2, 231, 3, 2, 2, 2, 2, 233, 3, 2, 2, 2, 2, 235, 3, 2, 2, 2, 2, 237, 3, 2, 2, 2, 2, 239, 3, 2, 2, 2, 2, 241, 3, 2, 2, 2, 2, 243, 3, 2, 2, 2, 2, 245, 3, 2, 2, 2, 2, 247, 3, 2, 2, 2, 2, 249, 3, 2, 2, 2, 2, 251, 3, 2, 2, 2, 2, 253, 3, 2, 2, 2, 2, 255, 3, 2, 2, 2, 2, 257, 3, 2, 2, 2, 2, 259, 3, 2, 2, 2, 2, 261, 3, 2, 2, 2, 2, 263, 3, 2, 2, 2, 2, 265, 3, 2, 2, 2, 2, 267, 3, 2, 2, 2, 2, 269, 3, 2, 2, 2, 2, 271, 3, 2, 2, 2, 2, 273, 3, 2, 2, 2, 2, 275, 3, 2, 2, 2, 2, 277, 3, 2, 2, 2, 2, 279, 3, 2, 2, 2, 2, 281, 3, 2, 2, 2, 2, 283, 3, 2, 2, 2, 2, 285, 3, 2, 2, 2, 2, 287, 3, 2, 2, 2, 2, 289, 3, 2, 2, 2, 2, 291, 3, 2, 2, 2, 2, 293, 3, 2, 2, 2, 2, 295, 3, 2, 2, 2, 2, 297, 3, 2, 2, 2, 2, 299, 3, 2, 2, 2, 2, 301, 3, 2, 2, 2, 2, 303, 3, 2, 2, 2, 2, 305, 3, 2, 2, 2, 2, 307, 3, 2, 2, 2, 2, 309, 3, 2, 2, 2, 2, 311, 3, 2, 2, 2, 2, 313, 3, 2, 2, 2, 2, 315, 3, 2, 2, 2, 2, 317, 3, 2, 2, 2, 2, 319, 3, 2, 2, 2, 2, 321, 3, 2, 2, 2, 2, 323, 3, 2, 2, 2, 2, 325, 3, 2, 2, 2, 2, 327, 3, 2, 2, 2, 2, 329, 3, 2, 2, 2, 2, 331, 3, 2, 2, 2, 2, 333, 3, 2, 2, 2, 2, 335, 3, 2, 2, 2, 2, 337, 3, 2, 2, 2, 2, 339, 3, 2, 2, 2, 2, 341, 3, 2, 2, 2, 2, 343, 3, 2, 2, 2, 2, 345, 3, 2, 2, 2, 2, 347, 3, 2, 2, 2, 2, 349, 3, 2, 2, 2, 2, 351, 3, 2, 2, 2, 2, 353, 3, 2, 2, 2, 2, 355, 3, 2, 2, 2, 2, 357, 3, 2, 2, 2, 2, 359, 3, 2, 2, 2, 2, 361, 3, 2, 2, 2, 2, 363, 3, 2, 2, 2, 2, 365, 3, 2, 2, 2, 2, 367, 3, 2, 2, 2, 2, 369, 3, 2, 2, 2, 2, 371, 3, 2, 2, 2, 2, 373, 3, 2, 2, 2, 2, 375, 3, 2, 2, 2, 2, 377, 3, 2, 2, 2, 2, 379, 3, 2, 2, 2, 2, 381, 3, 2, 2, 2, 2, 383, 3, 2, 2, 2, 2, 385, 3, 2, 2, 2, 2, 387, 3, 2, 2, 2, 2, 389, 3, 2, 2, 2, 2, 391, 3, 2, 2, 2, 2, 393, 3, 2, 2, 2, 2, 395, 3, 2, 2, 2, 2, 397, 3, 2, 2, 2, 2, 399, 3, 2, 2, 2, 2, 401, 3, 2, 2, 2, 2, 403, 3, 2, 2, 2, 2, 405, 3, 2, 2, 2, 2, 407, 3, 2, 2, 2, 2, 409, 3, 2, 2, 2, 2, 411, 3, 2, 2, 2, 2, 413, 3, 2, 2, 2, 2, 415, 3, 2, 2, 2, 3, 469, 3, 2, 2, 2, 5, 471, 3, 2, 2, 2, 7, 473, 3, 2, 2, 2, 9, 475, 3, 2, 2, 2, 11, 477, 3, 2, 2, 2, 13, 479, 3, 2, 2, 2, 15, 481, 3, 2, 2, 2, 17, 483, 3, 2, 2, 2, 19, 485, 3, 2, 2, 2, 21, 487, 3, 2, 2, 2, 23, 489, 3, 2, 2, 2, 25, 491, 3, 2, 2, 2, 27, 493, 3, 2, 2, 2, 29, 495, 3, 2, 2, 2, 31, 497, 3, 2, 2, 2, 33, 499, 3, 2, 2, 2, 35, 501, 3, 2, 2, 2, 37, 503, 3, 2, 2, 2, 39, 506, 3, 2, 2, 2, 41, 509, 3, 2, 2, 2, 43, 511, 3, 2, 2, 2, 45, 514, 3, 2, 2, 2, 47, 516, 3, 2, 2, 2, 49, 518, 3, 2, 2, 2, 51, 521, 3, 2, 2, 2, 53, 524, 3, 2, 2, 2, 55, 526, 3, 2, 2, 2, 57, 529, 3, 2, 2, 2, 59, 534, 3, 2, 2, 2, 61, 540, 3, 2, 2, 2, 63, 544, 3, 2, 2, 2, 65, 549, 3, 2, 2, 2, 67, 555, 3, 2, 2, 2, 69, 558, 3, 2, 2, 2, 71, 562, 3, 2, 2, 2, 73, 566, 3, 2, 2, 2, 75, 573, 3, 2, 2, 2, 77, 576, 3, 2, 2, 2, 79, 582, 3, 2, 2, 2, 81, 589, 3, 2, 2, 2, 83, 595, 3, 2, 2, 2, 85, 603, 3, 2, 2, 2, 87, 610, 3, 2, 2, 2, 89, 616, 3, 2, 2, 2, 91, 619, 3, 2, 2, 2, 93, 624, 3, 2, 2, 2, 95, 629, 3, 2, 2, 2, 97, 635, 3, 2, 2, 2, 99, 644, 3, 2, 2, 2, 101, 654, 3, 2, 2, 2, 103, 662, 3, 2, 2, 2, 105, 672, 3, 2, 2, 2, 107, 676, 3, 2, 2, 2, 109, 682, 3, 2, 2, 2, 111, 688, 3, 2, 2, 2, 113, 697, 3, 2, 2, 2, 115, 701, 3, 2, 2, 2, 117, 709, 3, 2, 2, 2, 119, 714, 3, 2, 2, 2, 121, 719, 3, 2, 2, 2, 123, 725, 3, 2, 2, 2, 125, 730, 3, 2, 2, 2, 127, 733, 3, 2, 2, 2, 129, 737, 3, 2, 2, 2, 131, 741, 3, 2, 2, 2, 133, 746, 3, 2, 2, 2, 135, 749, 3, 2, 2, 2, 137, 754, 3, 2, 2, 2, 139, 759, 3, 2, 2, 2, 141, 764, 3, 2, 2, 2, 143, 770, 3, 2, 2, 2, 145, 776, 3, 2, 2, 2, 147, 780, 3, 2, 2, 2, 149, 787, 3, 2, 2, 2, 151, 793, 3, 2, 2, 2, 153, 801, 3, 2, 2, 2, 155, 807, 3, 2, 2, 2, 157, 816, 3, 2, 2, 2, 159, 826, 3, 2, 2, 2, 161, 830, 3, 2, 2, 2, 163, 835, 3, 2, 2, 2, 165, 842, 3, 2, 2, 2, 167, 851, 3, 2, 2, 2, 169, 861, 3, 2, 2, 2, 171, 865, 3, 2, 2, 2, 173, 875, 3, 2, 2, 2, 175, 884, 3, 2, 2, 2, 177, 891, 3, 2, 2, 2, 179, 896, 3, 2, 2, 2, 181, 903, 3, 2, 2, 2, 183, 908, 3, 2, 2, 2, 185, 912, 3, 2, 2, 2, 187, 919, 3, 2, 2, 2, 189, 925, 3, 2, 2, 2, 191, 929, 3, 2, 2, 2, 193, 937, 3, 2, 2, 2, 195, 944, 3, 2, 2, 2, 197, 953, 3, 2, 2, 2, 199, 960, 3, 2, 2, 2, 201, 968, 3, 2, 2, 2, 203, 976, 3, 2, 2, 2, 205, 982, 3, 2, 2, 2, 207, 989, 3, 2, 2, 2, 209, 999, 3, 2, 2, 2, 211, 1003, 3, 2, 2, 2, 213, 1010, 3, 2, 2, 2, 215, 1018, 3, 2, 2, 2, 217, 1024, 3, 2, 2, 2, 219, 1030, 3, 2, 2, 2, 221, 1036, 3, 2, 2, 2, 223, 1044, 3, 2, 2, 2, 225, 1048, 3, 2, 2, 2, 227, 1057, 3, 2, 2, 2, 229, 1064, 3, 2, 2, 2, 231, 1070, 3, 2, 2, 2, 233, 1074, 3, 2, 2, 2, 235, 1082, 3, 2, 2, 2, 237, 1087, 3, 2, 2, 2, 239, 1099, 3, 2, 2, 2, 241, 1105, 3, 2, 2, 2, 243, 1108, 3, 2, 2, 2, 245, 1114, 3, 2, 2, 2, 247, 1119, 3, 2, 2, 2, 249, 1125, 3, 2, 2, 2, 251, 1131, 3, 2, 2, 2, 253, 1140, 3, 2, 2, 2, 255, 1147, 3, 2, 2, 2, 257, 1153, 3, 2, 2, 2, 259, 1162, 3, 2, 2, 2, 261, 1168, 3, 2, 2, 2, 263, 1175, 3, 2, 2, 2, 265, 1191, 3, 2, 2, 2, 267, 1210, 3, 2, 2, 2, 269, 1220, 3, 2, 2, 2, 271, 1233, 3, 2, 2, 2, 273, 1246, 3, 2, 2, 2, 275, 1262, 3, 2, 2, 2, 277, 1276, 3, 2, 2, 2, 279, 1290, 3, 2, 2, 2, 281, 1308, 3, 2, 2, 2, 283, 1312, 3, 2, 2, 2, 285, 1329, 3, 2, 2, 2, 287, 1349, 3, 2, 2, 2, 289, 1358, 3, 2, 2, 2, 291, 1361, 3, 2, 2, 2, 293, 1367, 3, 2, 2, 2, 295, 1375, 3, 2, 2, 2, 297, 1379, 3, 2, 2, 2, 299, 1384, 3, 2, 2, 2, 301, 1392, 3, 2, 2, 2, 303, 1402, 3, 2, 2, 2, 305, 1406, 3, 2, 2, 2, 307, 1419, 3, 2, 2, 2, 309, 1432, 3, 2, 2, 2, 311, 1442, 3, 2, 2, 2, 313, 1446, 3, 2, 2, 2, 315, 1456, 3, 2, 2, 2, 317, 1469, 3, 2, 2, 2, 319, 1487, 3, 2, 2, 2, 321, 1495, 3, 2, 2, 2, 323, 1500, 3, 2, 2, 2, 325, 1509, 3, 2, 2, 2, 327, 1521, 3, 2, 2, 2, 329, 1533, 3, 2, 2, 2, 331, 1546, 3, 2, 2, 2, 333, 1561, 3, 2, 2, 2, 335, 1565, 3, 2, 2, 2, 337, 1570, 3, 2, 2, 2, 339, 1577, 3, 2, 2, 2, 341, 1584, 3, 2, 2, 2, 343, 1591, 3, 2, 2, 2, 345, 1604, 3, 2, 2, 2, 347, 1614, 3, 2, 2, 2, 349, 1618, 3, 2, 2, 2, 351, 1621, 3, 2, 2, 2, 353, 1638, 3, 2, 2, 2, 355, 1641, 3, 2, 2, 2, 357, 1644, 3, 2, 2, 2, 359, 1662, 3, 2, 2, 2, 361, 1669, 3, 2, 2, 2, 363, 1704, 3, 2, 2, 2, 365, 1706, 3, 2, 2, 2, 367, 1709, 3, 2, 2, 2, 369, 1712, 3, 2, 2, 2, 371, 1715, 3, 2, 2, 2, 373, 1718, 3, 2, 2, 2, 375, 1721, 3, 2, 2, 2, 377, 1724, 3, 2, 2, 2, 379, 1733, 3, 2, 2, 2, 381, 1743, 3, 2, 2, 2, 383, 1753, 3, 2, 2, 2, 385, 1775, 3, 2, 2, 2, 387, 1797, 3, 2, 2, 2, 389, 1800, 3, 2, 2, 2, 391, 1809, 3, 2, 2, 2, 393, 1813, 3, 2, 2, 2, 395, 1823, 3, 2, 2, 2, 397, 1827, 3, 2, 2, 2, 399, 1831, 3, 2, 2, 2, 401, 1842, 3, 2, 2, 2, 403, 1844, 3, 2, 2, 2, 405, 1858, 3, 2, 2, 2, 407, 1877, 3, 2, 2, 2, 409, 1879, 3, 2, 2, 2, 411, 1884, 3, 2, 2, 2, 413, 1886, 3, 2, 2, 2, 415, 1889, 3, 2, 2, 2, 417, 1898, 3, 2, 2, 2, 419, 1900, 3, 2, 2, 2, 421, 1902, 3, 2, 2, 2, 423, 1904, 3, 2, 2, 2, 425, 1906, 3, 2, 2, 2, 427, 1908, 3, 2, 2, 2, 429, 1910, 3, 2, 2, 2, 431, 1912, 3, 2, 2, 2, 433, 1914, 3, 2, 2, 2, 435, 1916, 3, 2, 2, 2, 437, 1918, 3, 2, 2, 2, 439, 1920, 3, 2, 2, 2, 441, 1922, 3, 2, 2, 2, 443, 1924, 3, 2, 2, 2, 445, 1926, 3, 2, 2, 2, 447, 1928, 3, 2, 2, 2, 449, 1930, 3, 2, 2, 2, 451, 1932, 3, 2, 2, 2, 453, 1934, 3, 2, 2, 2, 455, 1936, 3, 2, 2, 2, 457, 1938, 3, 2, 2, 2, 459, 1940, 3, 2, 2, 2, 461, 1942, 3, 2, 2, 2, 463, 1944, 3, 2, 2, 2, 465, 1946, 3, 2, 2, 2, 467, 1948, 3, 2, 2, 2, 469, 470, 7, 44, 2, 2, 470, 4, 3, 2, 2, 2, 471, 472, 7, 42, 2, 2, 472, 6, 3, 2, 2, 2, 473, 474, 7, 43, 2, 2, 474, 8, 3, 2, 2, 2, 475, 476, 7, 125, 2, 2, 476, 10, 3, 2, 2, 2, 477, 478, 7, 127, 2, 2, 478, 12, 3, 2, 2, 2, 479, 480, 7, 61, 2, 2, 480, 14, 3, 2, 2, 2, 481, 482, 7, 48, 2, 2, 482, 16, 3, 2, 2, 2, 483, 484, 7, 46, 2, 2, 484, 18, 3, 2, 2, 2, 485, 486, 7, 99, 2, 2, 486, 20, 3, 2, 2, 2, 487, 488, 7, 126, 2, 2, 488, 22, 3, 2, 2, 2, 489, 490, 7, 49, 2, 2, 490, 24, 3, 2, 2, 2, 491, 492, 7, 96, 2, 2, 492, 26, 3, 2, 2, 2, 493, 494, 7, 65, 2, 2, 494, 28, 3, 2, 2, 2, 495, 496, 7, 45, 2, 2, 496, 30, 3, 2, 2, 2, 497, 498, 7, 35, 2, 2, 498, 32, 3, 2, 2, 2, 499, 500, 7, 93, 2, 2, 500, 34, 3, 2, 2, 2, 501, 502, 7, 95, 2, 2, 502, 36, 3, 2, 2, 2, 503, 504, 7, 126, 2, 2, 504, 505, 7, 126, 2, 2, 505, 38, 3, 2, 2, 2, 506, 507, 7, 40, 2, 2, 507, 508, 7, 40, 2, 2, 508, 40, 3, 2, 2, 2, 509, 510, 7, 63, 2, 2, 510, 42, 3, 2, 2, 2, 511, 512, 7, 35, 2, 2, 512, 513, 7, 63, 2, 2, 513, 44, 3, 2, 2, 2, 514, 515, 7, 62, 2, 2, 515, 46, 3, 2, 2, 2, 516, 517, 7, 64, 2, 2, 517, 48, 3, 2, 2, 2, 518, 519, 7, 62, 2, 2, 519, 520, 7, 63, 2, 2, 520, 50, 3, 2, 2, 2, 521, 522, 7, 64, 2, 2, 522, 523, 7, 63, 2, 2, 523, 52, 3, 2, 2, 2, 524, 525, 7, 47, 2, 2, 525, 54, 3, 2, 2, 2, 526, 527, 7, 96, 2, 2, 527, 528, 7, 96, 2, 2, 528, 56, 3, 2, 2, 2, 529, 530, 7, 118, 2, 2, 530, 531, 7, 116, 2, 2, 531, 532, 7, 119, 2, 2, 532, 533, 7, 103, 2, 2, 533, 58, 3, 2, 2, 2, 534, 535, 7, 104, 2, 2, 535, 536, 7, 99, 2, 2, 536, 537, 7, 110, 2, 2, 537, 538, 7, 117, 2, 2, 538, 539, 7, 103, 2, 2, 539, 60, 3, 2, 2, 2, 540, 541, 5, 443, 222, 2, 541, 542, 5, 445, 223, 2, 542, 543, 5, 461, 231, 2, 543, 62, 3, 2, 2, 2, 544, 545, 5, 465, 233, 2, 545, 546, 5, 425, 213, 2, 546, 547, 5, 417, 209, 2, 547, 548, 5, 451, 226, 2, 548, 64, 3, 2, 2, 2, 549, 550, 5, 457, 229, 2, 550, 551, 5, 443, 222, 2, 551, 552, 5, 433, 217, 2, 552, 553, 5, 445, 223, 2, 553, 554, 5, 443, 222, 2, 554, 66, 3, 2, 2, 2, 555, 556, 5, 433, 217, 2, 556, 557, 5, 427, 214, 2, 557, 68, 3, 2, 2, 2, 558, 559, 5, 417, 209, 2, 559, 560, 5, 453, 227, 2, 560, 561, 5, 437, 219, 2, 561, 70, 3, 2, 2, 2, 562, 563, 5, 417, 209, 2, 563, 564, 5, 453, 227, 2, 564, 565, 5, 421, 211, 2, 565, 72, 3, 2, 2, 2, 566, 567, 5, 421, 211, 2, 567, 568, 5, 445, 223, 2, 568, 569, 5, 443, 222, 2, 569, 570, 5, 421, 211, 2, 570, 571, 5, 417, 209, 2, 571, 572, 5, 455, 228, 2, 572, 74, 3, 2, 2, 2, 573, 574, 5, 433, 217, 2, 574, 575, 5, 443, 222, 2, 575, 76, 3, 2, 2, 2, 576, 577, 5, 457, 229, 2, 577, 578, 5, 443, 222, 2, 578, 579, 5, 423, 212, 2, 579, 580, 5, 425, 213, 2, 580, 581, 5, 427, 214, 2, 581, 78, 3, 2, 2, 2, 582, 583, 5, 433, 217, 2, 583, 584, 5, 443, 222, 2, 584, 585, 5, 453, 227, 2, 585, 586, 5, 425, 213, 2, 586, 587, 5, 451, 226, 2, 587, 588, 5, 455, 228, 2, 588, 80, 3, 2, 2, 2, 589, 590, 5, 441, 221, 2, 590, 591, 5, 445, 223, 2, 591, 592, 5, 443, 222, 2, 592, 593, 5, 455, 228, 2, 593, 594, 5, 431, 216, 2, 594, 82, 3, 2, 2, 2, 595, 596, 5, 423, 212, 2, 596, 597, 5, 425, 213, 2, 597, 598, 5, 427, 214, 2, 598, 599, 5, 417, 209, 2, 599, 600, 5, 457, 229, 2, 600, 601, 5, 439, 220, 2, 601, 602, 5, 455, 228, 2, 602, 84, 3, 2, 2, 2, 603, 604, 5, 453, 227, 2, 604, 605, 5, 425, 213, 2, 605, 606, 5, 439, 220, 2, 606, 607, 5, 425, 213, 2, 607, 608, 5, 421, 211, 2, 608, 609, 5, 455, 228, 2, 609, 86, 3, 2, 2, 2, 610, 611, 5, 427, 214, 2, 611, 612, 5, 439, 220, 2, 612, 613, 5, 445, 223, 2, 613, 614, 5, 445, 223, 2, 614, 615, 5, 451, 226, 2, 615, 88, 3, 2, 2, 2, 616, 617, 5, 455, 228, 2, 617, 618, 5, 467, 234, 2, 618, 90, 3, 2, 2, 2, 619, 620, 5, 421, 211, 2, 620, 621, 5, 445, 223, 2, 621, 622, 5, 447, 224, 2, 622, 623, 5, 465, 233, 2, 623, 92, 3, 2, 2, 2, 624, 625, 5, 421, 211, 2, 625, 626, 5, 425, 213, 2, 626, 627, 5, 433, 217, 2, 627, 628, 5, 439, 220, 2, 628, 94, 3, 2, 2, 2, 629, 630, 5, 431, 216, 2, 630, 631, 5, 445, 223, 2, 631, 632, 5, 457, 229, 2, 632, 633, 5, 451, 226, 2, 633, 634, 5, 453, 227, 2, 634, 96, 3, 2, 2, 2, 635, 636, 5, 423, 212, 2, 636, 637, 5, 417, 209, 2, 637, 638, 5, 455, 228, 2, 638, 639, 5, 417, 209, 2, 639, 640, 5, 455, 228, 2, 640, 641, 5, 465, 233, 2, 641, 642, 5, 447, 224, 2, 642, 643, 5, 425, 213, 2, 643, 98, 3, 2, 2, 2, 644, 645, 5, 433, 217, 2, 645, 646, 5, 453, 227, 2, 646, 647, 5, 443, 222, 2, 647, 648, 5, 457, 229, 2, 648, 649, 5, 441, 221, 2, 649, 650, 5, 425, 213, 2, 650, 651, 5, 451, 226, 2, 651, 652, 5, 433, 217, 2, 652, 653, 5, 421, 211, 2, 653, 100, 3, 2, 2, 2, 654, 655, 5, 453, 227, 2, 655, 656, 5, 455, 228, 2, 656, 657, 5, 451, 226, 2, 657, 658, 5, 457, 229, 2, 658, 659, 5, 457, 229, 2, 659, 660, 5, 433, 217, 2, 660, 661, 5, 423, 212, 2, 661, 102, 3, 2, 2, 2, 662, 663, 5, 421, 211, 2, 663, 664, 5, 445, 223, 2, 664, 665, 5, 443, 222, 2, 665, 666, 5, 453, 227, 2, 666, 667, 5, 455, 228, 2, 667, 668, 5, 451, 226, 2, 668, 669, 5, 457, 229, 2, 669, 670, 5, 421, 211, 2, 670, 671, 5, 455, 228, 2, 671, 104, 3, 2, 2, 2, 672, 673, 5, 417, 209, 2, 673, 674, 5, 423, 212, 2, 674, 675, 5, 423, 212, 2, 675, 106, 3, 2, 2, 2, 676, 677, 5, 419, 210, 2, 677, 678, 5, 445, 223, 2, 678, 679, 5, 457, 229, 2, 679, 680, 5, 443, 222, 2, 680, 681, 5, 423, 212, 2, 681, 108, 3, 2, 2, 2, 682, 683, 5, 443, 222, 2, 683, 684, 5, 417, 209, 2, 684, 685, 5, 441, 221, 2, 685, 686, 5, 425, 213, 2, 686, 687, 5, 423, 212, 2, 687, 110, 3, 2, 2, 2, 688, 689, 5, 455, 228, 2, 689, 690, 5, 433, 217, 2, 690, 691, 5, 441, 221, 2, 691, 692, 5, 425, 213, 2, 692, 693, 5, 467, 234, 2, 693, 694, 5, 445, 223, 2, 694, 695, 5, 443, 222, 2, 695, 696, 5, 425, 213, 2, 696, 112, 3, 2, 2, 2, 697, 698, 5, 441, 221, 2, 698, 699, 5, 433, 217, 2, 699, 700, 5, 443, 222, 2, 700, 114, 3, 2, 2, 2, 701, 702, 5, 433, 217, 2, 702, 703, 5, 453, 227, 2, 703, 704, 5, 419, 210, 2, 704, 705, 5, 439, 220, 2, 705, 706, 5, 417, 209, 2, 706, 707, 5, 443, 222, 2, 707, 708, 5, 437, 219, 2, 708, 116, 3, 2, 2, 2, 709, 710, 5, 457, 229, 2, 710, 711, 5, 457, 229, 2, 711, 712, 5, 433, 217, 2, 712, 713, 5, 423, 212, 2, 713, 118, 3, 2, 2, 2, 714, 715, 5, 419, 210, 2, 715, 716, 5, 433, 217, 2, 716, 717, 5, 443, 222, 2, 717, 718, 5, 423, 212, 2, 718, 120, 3, 2, 2, 2, 719, 720, 5, 421, 211, 2, 720, 721, 5, 439, 220, 2, 721, 722, 5, 425, 213, 2, 722, 723, 5, 417, 209, 2, 723, 724, 5, 451, 226, 2, 724, 122, 3, 2, 2, 2, 725, 726, 5, 433, 217, 2, 726, 727, 5, 443, 222, 2, 727, 728, 5, 455, 228, 2, 728, 729, 5, 445, 223, 2, 729, 124, 3, 2, 2, 2, 730, 731, 5, 417, 209, 2, 731, 732, 5, 453, 227, 2, 732, 126, 3, 2, 2, 2, 733, 734, 5, 417, 209, 2, 734, 735, 5, 439, 220, 2, 735, 736, 5, 439, 220, 2, 736, 128, 3, 2, 2, 2, 737, 738, 5, 433, 217, 2, 738, 739, 5, 451, 226, 2, 739, 740, 5, 433, 217, 2, 740, 130, 3, 2, 2, 2, 741, 742, 5, 419, 210, 2, 742, 743, 5, 417, 209, 2, 743, 744, 5, 453, 227, 2, 744, 745, 5, 425, 213, 2, 745, 132, 3, 2, 2, 2, 746, 747, 5, 419, 210, 2, 747, 748, 5, 465, 233, 2, 748, 134, 3, 2, 2, 2, 749, 750, 5, 423, 212, 2, 750, 751, 5, 451, 226, 2, 751, 752, 5, 445, 223, 2, 752, 753, 5, 447, 224, 2, 753, 136, 3, 2, 2, 2, 754, 755, 5, 439, 220, 2, 755, 756, 5, 445, 223, 2, 756, 757, 5, 417, 209, 2, 757, 758, 5, 423, 212, 2, 758, 138, 3, 2, 2, 2, 759, 760, 5, 461, 231, 2, 760, 761, 5, 433, 217, 2, 761, 762, 5, 455, 228, 2, 762, 763, 5, 431, 216, 2, 763, 140, 3, 2, 2, 2, 764, 765, 5, 419, 210, 2, 765, 766, 5, 443, 222, 2, 766, 767, 5, 445, 223, 2, 767, 768, 5, 423, 212, 2, 768, 769, 5, 425, 213, 2, 769, 142, 3, 2, 2, 2, 770, 771, 5, 461, 231, 2, 771, 772, 5, 431, 216, 2, 772, 773, 5, 425, 213, 2, 773, 774, 5, 451, 226, 2, 774, 775, 5, 425, 213, 2, 775, 144, 3, 2, 2, 2, 776, 777, 5, 417, 209, 2, 777, 778, 5, 459, 230, 2, 778, 779, 5, 429, 215, 2, 779, 146, 3, 2, 2, 2, 780, 781, 5, 453, 227, 2, 781, 782, 5, 417, 209, 2, 782, 783, 5, 441, 221, 2, 783, 784, 5, 447, 224, 2, 784, 785, 5, 439, 220, 2, 785, 786, 5, 425, 213, 2, 786, 148, 3, 2, 2, 2, 787, 788, 5, 457, 229, 2, 788, 789, 5, 421, 211, 2, 789, 790, 5, 417, 209, 2, 790, 791, 5, 453, 227, 2, 791, 792, 5, 425, 213, 2, 792, 150, 3, 2, 2, 2, 793, 794, 5, 453, 227, 2, 794, 795, 5, 425, 213, 2, 795, 796, 5, 451, 226, 2, 796, 797, 5, 459, 230, 2, 797, 798, 5, 433, 217, 2, 798, 799, 5, 421, 211, 2, 799, 800, 5, 425, 213, 2, 800, 152, 3, 2, 2, 2, 801, 802, 5, 441, 221, 2, 802, 803, 5, 433, 217, 2, 803, 804, 5, 443, 222, 2, 804, 805, 5, 457, 229, 2, 805, 806, 5, 453, 227, 2, 806, 154, 3, 2, 2, 2, 807, 808, 5, 453, 227, 2, 808, 809, 5, 417, 209, 2, 809, 810, 5, 441, 221, 2, 810, 811, 5, 425, 213, 2, 811, 812, 5, 455, 228, 2, 812, 813, 5, 425, 213, 2, 813, 814, 5, 451, 226, 2, 814, 815, 5, 441, 221, 2, 815, 156, 3, 2, 2, 2, 816, 817, 5, 453, 227, 2, 817, 818, 5, 455, 228, 2, 818, 819, 5, 451, 226, 2, 819, 820, 5, 453, 227, 2, 820, 821, 5, 455, 228, 2, 821, 822, 5, 417, 209, 2, 822, 823, 5, 451, 226, 2, 823, 824, 5, 455, 228, 2, 824, 825, 5, 453, 227, 2, 825, 158, 3, 2, 2, 2, 826, 827, 5, 453, 227, 2, 827, 828, 5, 455, 228, 2, 828, 829, 5, 451, 226, 2, 829, 160, 3, 2, 2, 2, 830, 831, 5, 441, 221, 2, 831, 832, 5, 445, 223, 2, 832, 833, 5, 459, 230, 2, 833, 834, 5, 425, 213, 2, 834, 162, 3, 2, 2, 2, 835, 836, 5, 431, 216, 2, 836, 837, 5, 417, 209, 2, 837, 838, 5, 459, 230, 2, 838, 839, 5, 433, 217, 2, 839, 840, 5, 443, 222, 2, 840, 841, 5, 429, 215, 2, 841, 164, 3, 2, 2, 2, 842, 843, 5, 421, 211, 2, 843, 844, 5, 445, 223, 2, 844, 845, 5, 417, 209, 2, 845, 846, 5, 439, 220, 2, 846, 847, 5, 425, 213, 2, 847, 848, 5, 453, 227, 2, 848, 849, 5, 421, 211, 2, 849, 850, 5, 425, 213, 2, 850, 166, 3, 2, 2, 2, 851, 852, 5, 453, 227, 2, 852, 853, 5, 455, 228, 2, 853, 854, 5, 451, 226, 2, 854, 855, 5, 419, 210, 2, 855, 856, 5, 425, 213, 2, 856, 857, 5, 427, 214, 2, 857, 858, 5, 445, 223, 2, 858, 859, 5, 451, 226, 2, 859, 860, 5, 425, 213, 2, 860, 168, 3, 2, 2, 2, 861, 862, 5, 417, 209, 2, 862, 863, 5, 419, 210, 2, 863, 864, 5, 453, 227, 2, 864, 170, 3, 2, 2, 2, 865, 866, 5, 433, 217, 2, 866, 867, 5, 453, 227, 2, 867, 868, 5, 439, 220, 2, 868, 869, 5, 433, 217, 2, 869, 870, 5, 455, 228, 2, 870, 871, 5, 425, 213, 2, 871, 872, 5, 451, 226, 2, 872, 873, 5, 417, 209, 2, 873, 874, 5, 439, 220, 2, 874, 172, 3, 2, 2, 2, 875, 876, 5, 453, 227, 2, 876, 877, 5, 455, 228, 2, 877, 878, 5, 451, 226, 2, 878, 879, 5, 417, 209, 2, 879, 880, 5, 427, 214, 2, 880, 881, 5, 455, 228, 2, 881, 882, 5, 425, 213, 2, 882, 883, 5, 451, 226, 2, 883, 174, 3, 2, 2, 2, 884, 885, 5, 453, 227, 2, 885, 886, 5, 455, 228, 2, 886, 887, 5, 451, 226, 2, 887, 888, 5, 439, 220, 2, 888, 889, 5, 425, 213, 2, 889, 890, 5, 443, 222, 2, 890, 176, 3, 2, 2, 2, 891, 892, 5, 439, 220, 2, 892, 893, 5, 417, 209, 2, 893, 894, 5, 443, 222, 2, 894, 895, 5, 429, 215, 2, 895, 178, 3, 2, 2, 2, 896, 897, 5, 421, 211, 2, 897, 898, 5, 451, 226, 2, 898, 899, 5, 425, 213, 2, 899, 900, 5, 417, 209, 2, 900, 901, 5, 455, 228, 2, 901, 902, 5, 425, 213, 2, 902, 180, 3, 2, 2, 2, 903, 904, 5, 423, 212, 2, 904, 905, 5, 425, 213, 2, 905, 906, 5, 453, 227, 2, 906, 907, 5, 421, 211, 2, 907, 182, 3, 2, 2, 2, 908, 909, 5, 441, 221, 2, 909, 910, 5, 417, 209, 2, 910, 911, 5, 463, 232, 2, 911, 184, 3, 2, 2, 2, 912, 913, 5, 427, 214, 2, 913, 914, 5, 433, 217, 2, 914, 915, 5, 439, 220, 2, 915, 916, 5, 455, 228, 2, 916, 917, 5, 425, 213, 2, 917, 918, 5, 451, 226, 2, 918, 186, 3, 2, 2, 2, 919, 920, 5, 457, 229, 2, 920, 921, 5, 453, 227, 2, 921, 922, 5, 433, 217, 2, 922, 923, 5, 443, 222, 2, 923, 924, 5, 429, 215, 2, 924, 188, 3, 2, 2, 2, 925, 926, 5, 443, 222, 2, 926, 927, 5, 445, 223, 2, 927, 928, 5, 455, 228, 2, 928, 190, 3, 2, 2, 2, 929, 930, 5, 453, 227, 2, 930, 931, 5, 455, 228, 2, 931, 932, 5, 451, 226, 2, 932, 933, 5, 425, 213, 2, 933, 934, 5, 443, 222, 2, 934, 935, 5, 423, 212, 2, 935, 936, 5, 453, 227, 2, 936, 192, 3, 2, 2, 2, 937, 938, 5, 445, 223, 2, 938, 939, 5, 427, 214, 2, 939, 940, 5, 427, 214, 2, 940, 941, 5, 453, 227, 2, 941, 942, 5, 425, 213, 2, 942, 943, 5, 455, 228, 2, 943, 194, 3, 2, 2, 2, 944, 945, 5, 421, 211, 2, 945, 946, 5, 445, 223, 2, 946, 947, 5, 443, 222, 2, 947, 948, 5, 455, 228, 2, 948, 949, 5, 417, 209, 2, 949, 950, 5, 433, 217, 2, 950, 951, 5, 443, 222, 2, 951, 952, 5, 453, 227, 2, 952, 196, 3, 2, 2, 2, 953, 954, 5, 447, 224, 2, 954, 955, 5, 451, 226, 2, 955, 956, 5, 425, 213, 2, 956, 957, 5, 427, 214, 2, 957, 958, 5, 433, 217, 2, 958, 959, 5, 463, 232, 2, 959, 198, 3, 2, 2, 2, 960, 961, 5, 441, 221, 2, 961, 962, 5, 433, 217, 2, 962, 963, 5, 443, 222, 2, 963, 964, 5, 457, 229, 2, 964, 965, 5, 455, 228, 2, 965, 966, 5, 425, 213, 2, 966, 967, 5, 453, 227, 2, 967, 200, 3, 2, 2, 2, 968, 969, 5, 451, 226, 2, 969, 970, 5, 425, 213, 2, 970, 971, 5, 447, 224, 2, 971, 972, 5, 439, 220, 2, 972, 973, 5, 417, 209, 2, 973, 974, 5, 421, 211, 2, 974, 975, 5, 425, 213, 2, 975, 202, 3, 2, 2, 2, 976, 977, 5, 451, 226, 2, 977, 978, 5, 425, 213, 2, 978, 979, 5, 429, 215, 2, 979, 980, 5, 425, 213, 2, 980, 981, 5, 463, 232, 2, 981, 204, 3, 2, 2, 2, 982, 983, 5, 423, 212, 2, 983, 984, 5, 425, 213, 2, 984, 985, 5, 439, 220, 2, 985, 986, 5, 425, 213, 2, 986, 987, 5, 455, 228, 2, 987, 988, 5, 425, 213, 2, 988, 206, 3, 2, 2, 2, 989, 990, 5, 453, 227, 2, 990, 991, 5, 425, 213, 2, 991, 992, 5, 447, 224, 2, 992, 993, 5, 417, 209, 2, 993, 994, 5, 451, 226, 2, 994, 995, 5, 417, 209, 2, 995, 996, 5, 455, 228, 2, 996, 997, 5, 445, 223, 2, 997, 998, 5, 451, 226, 2, 998, 208, 3, 2, 2, 2, 999, 1000, 5, 423, 212, 2, 1000, 1001, 5, 417, 209, 2, 1001, 1002, 5, 465, 233, 2, 1002, 210, 3, 2, 2, 2, 1003, 1004, 5, 453, 227, 2, 1004, 1005, 5, 433, 217, 2, 1005, 1006, 5, 439, 220, 2, 1006, 1007, 5, 425, 213, 2, 1007, 1008, 5, 443, 222, 2, 1008, 1009, 5, 455, 228, 2, 1009, 212, 3, 2, 2, 2, 1010, 1011, 5, 453, 227, 2, 1011, 1012, 5, 455, 228, 2, 1012, 1013, 5, 451, 226, 2, 1013, 1014, 5, 439, 220, 2, 1014, 1015, 5, 417, 209, 2, 1015, 1016, 5, 443, 222, 2, 1016, 1017, 5, 429, 215, 2, 1017, 214, 3, 2, 2, 2, 1018, 1019, 5, 445, 223, 2, 1019, 1020, 5, 451, 226, 2, 1020, 1021, 5, 423, 212, 2, 1021, 1022, 5, 425, 213, 2, 1022, 1023, 5, 451, 226, 2, 1023, 216, 3, 2, 2, 2, 1024, 1025, 5, 451, 226, 2, 1025, 1026, 5, 445, 223, 2, 1026, 1027, 5, 457, 229, 2, 1027, 1028, 5, 443, 222, 2, 1028, 1029, 5, 423, 212, 2, 1029, 218, 3, 2, 2, 2, 1030, 1031, 5, 429, 215, 2, 1031, 1032, 5, 451, 226, 2, 1032, 1033, 5, 417, 209, 2, 1033, 1034, 5, 447, 224, 2, 1034, 1035, 5, 431, 216, 2, 1035, 220, 3, 2, 2, 2, 1036, 1037, 5, 453, 227, 2, 1037, 1038, 5, 425, 213, 2, 1038, 1039, 5, 421, 211, 2, 1039, 1040, 5, 445, 223, 2, 1040, 1041, 5, 443, 222, 2, 1041, 1042, 5, 423, 212, 2, 1042, 1043, 5, 453, 227, 2, 1043, 222, 3, 2, 2, 2, 1044, 1045, 5, 457, 229, 2, 1045, 1046, 5, 451, 226, 2, 1046, 1047, 5, 433, 217, 2, 1047, 224, 3, 2, 2, 2, 1048, 1049, 5, 423, 212, 2, 1049, 1050, 5, 433, 217, 2, 1050, 1051, 5, 453, 227, 2, 1051, 1052, 5, 455, 228, 2, 1052, 1053, 5, 433, 217, 2, 1053, 1054, 5, 443, 222, 2, 1054, 1055, 5, 421, 211, 2, 1055, 1056, 5, 455, 228, 2, 1056, 226, 3, 2, 2, 2, 1057, 1058, 5, 425, 213, 2, 1058, 1059, 5, 463, 232, 2, 1059, 1060, 5, 433, 217, 2, 1060, 1061, 5, 453, 227, 2, 1061, 1062, 5, 455, 228, 2, 1062, 1063, 5, 453, 227, 2, 1063, 228, 3, 2, 2, 2, 1064, 1065, 5, 429, 215, 2, 1065, 1066, 5, 451, 226, 2, 1066, 1067, 5, 445, 223, 2, 1067, 1068, 5, 457, 229, 2, 1068, 1069, 5, 447, 224, 2, 1069, 230, 3, 2, 2, 2, 1070, 1071, 5, 453, 227, 2, 1071, 1072, 5, 457, 229, 2, 1072, 1073, 5, 441, 221, 2, 1073, 232, 3, 2, 2, 2, 1074, 1075, 5, 451, 226, 2, 1075, 1076, 5, 425, 213, 2, 1076, 1077, 5, 423, 212, 2, 1077, 1078, 5, 457, 229, 2, 1078, 1079, 5, 421, 211, 2, 1079, 1080, 5, 425, 213, 2, 1080, 1081, 5, 423, 212, 2, 1081, 234, 3, 2, 2, 2, 1082, 1083, 5, 427, 214, 2, 1083, 1084, 5, 451, 226, 2, 1084, 1085, 5, 445, 223, 2, 1085, 1086, 5, 441, 221, 2, 1086, 236, 3, 2, 2, 2, 1087, 1088, 5, 439, 220, 2, 1088, 1089, 5, 417, 209, 2, 1089, 1090, 5, 443, 222, 2, 1090, 1091, 5, 429, 215, 2, 1091, 1092, 5, 441, 221, 2, 1092, 1093, 5, 417, 209, 2, 1093, 1094, 5, 455, 228, 2, 1094, 1095, 5, 421, 211, 2, 1095, 1096, 5, 431, 216, 2, 1096, 1097, 5, 425, 213, 2, 1097, 1098, 5, 453, 227, 2, 1098, 238, 3, 2, 2, 2, 1099, 1100, 5, 433, 217, 2, 1100, 1101, 5, 453, 227, 2, 1101, 1102, 5, 457, 229, 2, 1102, 1103, 5, 451, 226, 2, 1103, 1104, 5, 433, 217, 2, 1104, 240, 3, 2, 2, 2, 1105, 1106, 5, 455, 228, 2, 1106, 1107, 5, 445, 223, 2, 1107, 242, 3, 2, 2, 2, 1108, 1109, 5, 433, 217, 2, 1109, 1110, 5, 453, 227, 2, 1110, 1111, 5, 433, 217, 2, 1111, 1112, 5, 451, 226, 2, 1112, 1113, 5, 433, 217, 2, 1113, 244, 3, 2, 2, 2, 1114, 1115, 5, 451, 226, 2, 1115, 1116, 5, 417, 209, 2, 1116, 1117, 5, 443, 222, 2, 1117, 1118, 5, 423, 212, 2, 1118, 246, 3, 2, 2, 2, 1119, 1120, 5, 453, 227, 2, 1120, 1121, 5, 455, 228, 2, 1121, 1122, 5, 451, 226, 2, 1122, 1123, 5, 423, 212, 2, 1123, 1124, 5, 455, 228, 2, 1124, 248, 3, 2, 2, 2, 1125, 1126, 5, 421, 211, 2, 1126, 1127, 5, 445, 223, 2, 1127, 1128, 5, 457, 229, 2, 1128, 1129, 5, 443, 222, 2, 1129, 1130, 5, 455, 228, 2, 1130, 250, 3, 2, 2, 2, 1131, 1132, 5, 423, 212, 2, 1132, 1133, 5, 425, 213, 2, 1133, 1134, 5, 453, 227, 2, 1134, 1135, 5, 421, 211, 2, 1135, 1136, 5, 451, 226, 2, 1136, 1137, 5, 433, 217, 2, 1137, 1138, 5, 419, 210, 2, 1138, 1139, 5, 425, 213, 2, 1139, 252, 3, 2, 2, 2, 1140, 1141, 5, 459, 230, 2, 1141, 1142, 5, 417, 209, 2, 1142, 1143, 5, 439, 220, 2, 1143, 1144, 5, 457, 229, 2, 1144, 1145, 5, 425, 213, 2, 1145, 1146, 5, 453, 227, 2, 1146, 254, 3, 2, 2, 2, 1147, 1148, 5, 439, 220, 2, 1148, 1149, 5, 421, 211, 2, 1149, 1150, 5, 417, 209, 2, 1150, 1151, 5, 453, 227, 2, 1151, 1152, 5, 425, 213, 2, 1152, 256, 3, 2, 2, 2, 1153, 1154, 5, 445, 223, 2, 1154, 1155, 5, 447, 224, 2, 1155, 1156, 5, 455, 228, 2, 1156, 1157, 5, 433, 217, 2, 1157, 1158, 5, 445, 223, 2, 1158, 1159, 5, 443, 222, 2, 1159, 1160, 5, 417, 209, 2, 1160, 1161, 5, 439, 220, 2, 1161, 258, 3, 2, 2, 2, 1162, 1163, 5, 439, 220, 2, 1163, 1164, 5, 433, 217, 2, 1164, 1165, 5, 441, 221, 2, 1165, 1166, 5, 433, 217, 2, 1166, 1167, 5, 455, 228, 2, 1167, 260, 3, 2, 2, 2, 1168, 1169, 5, 453, 227, 2, 1169, 1170, 5, 457, 229, 2, 1170, 1171, 5, 419, 210, 2, 1171, 1172, 5, 453, 227, 2, 1172, 1173, 5, 455, 228, 2, 1173, 1174, 5, 451, 226, 2, 1174, 262, 3, 2, 2, 2, 1175, 1176, 5, 453, 227, 2, 1176, 1177, 5, 433, 217, 2, 1177, 1178, 5, 441, 221, 2, 1178, 1179, 5, 447, 224, 2, 1179, 1180, 5, 439, 220, 2, 1180, 1181, 5, 425, 213, 2, 1181, 1182, 5, 421, 211, 2, 1182, 1183, 5, 465, 233, 2, 1183, 1184, 5, 421, 211, 2, 1184, 1185, 5, 439, 220, 2, 1185, 1186, 5, 425, 213, 2, 1186, 1187, 5, 447, 224, 2, 1187, 1188, 5, 417, 209, 2, 1188, 1189, 5, 455, 228, 2, 1189, 1190, 5, 431, 216, 2, 1190, 264, 3, 2, 2, 2, 1191, 1192, 5, 453, 227, 2, 1192, 1193, 5, 433, 217, 2, 1193, 1194, 5, 441, 221, 2, 1194, 1195, 5, 447, 224, 2, 1195, 1196, 5, 439, 220, 2, 1196, 1197, 5, 425, 213, 2, 1197, 1198, 5, 421, 211, 2, 1198, 1199, 5, 465, 233, 2, 1199, 1200, 5, 421, 211, 2, 1200, 1201, 5, 439, 220, 2, 1201, 1202, 5, 425, 213, 2, 1202, 1203, 5, 419, 210, 2, 1203, 1204, 5, 445, 223, 2, 1204, 1205, 5, 445, 223, 2, 1205, 1206, 5, 439, 220, 2, 1206, 1207, 5, 425, 213, 2, 1207, 1208, 5, 417, 209, 2, 1208, 1209, 5, 443, 222, 2, 1209, 266, 3, 2, 2, 2, 1210, 1211, 5, 421, 211, 2, 1211, 1212, 5, 465, 233, 2, 1212, 1213, 5, 421, 211, 2, 1213, 1214, 5, 439, 220, 2, 1214, 1215, 5, 425, 213, 2, 1215, 1216, 5, 447, 224, 2, 1216, 1217, 5, 417, 209, 2, 1217, 1218, 5, 455, 228, 2, 1218, 1219, 5, 431, 216, 2, 1219, 268, 3, 2, 2, 2, 1220, 1221, 5, 421, 211, 2, 1221, 1222, 5, 465, 233, 2, 1222, 1223, 5, 421, 211, 2, 1223, 1224, 5, 439, 220, 2, 1224, 1225, 5, 425, 213, 2, 1225, 1226, 5, 419, 210, 2, 1226, 1227, 5, 445, 223, 2, 1227, 1228, 5, 445, 223, 2, 1228, 1229, 5, 439, 220, 2, 1229, 1230, 5, 425, 213, 2, 1230, 1231, 5, 417, 209, 2, 1231, 1232, 5, 443, 222, 2, 1232, 270, 3, 2, 2, 2, 1233, 1234, 5, 453, 227, 2, 1234, 1235, 5, 431, 216, 2, 1235, 1236, 5, 445, 223, 2, 1236, 1237, 5, 451, 226, 2, 1237, 1238, 5, 455, 228, 2, 1238, 1239, 5, 425, 213, 2, 1239, 1240, 5, 453, 227, 2, 1240, 1241, 5, 455, 228, 2, 1241, 1242, 5, 447, 224, 2, 1242, 1243, 5, 417, 209, 2, 1243, 1244, 5, 455, 228, 2, 1244, 1245, 5, 431, 216, 2, 1245, 272, 3, 2, 2, 2, 1246, 1247, 5, 453, 227, 2, 1247, 1248, 5, 431, 216, 2, 1248, 1249, 5, 445, 223, 2, 1249, 1250, 5, 451, 226, 2, 1250, 1251, 5, 455, 228, 2, 1251, 1252, 5, 425, 213, 2, 1252, 1253, 5, 453, 227, 2, 1253, 1254, 5, 455, 228, 2, 1254, 1255, 5, 447, 224, 2, 1255, 1256, 5, 417, 209, 2, 1256, 1257, 5, 455, 228, 2, 1257, 1258, 5, 431, 216, 2, 1258, 1259, 5, 439, 220, 2, 1259, 1260, 5, 425, 213, 2, 1260, 1261, 5, 443, 222, 2, 1261, 274, 3, 2, 2, 2, 1262, 1263, 5, 437, 219, 2, 1263, 1264, 5, 431, 216, 2, 1264, 1265, 5, 445, 223, 2, 1265, 1266, 5, 447, 224, 2, 1266, 1267, 5, 451, 226, 2, 1267, 1268, 5, 425, 213, 2, 1268, 1269, 5, 417, 209, 2, 1269, 1270, 5, 421, 211, 2, 1270, 1271, 5, 431, 216, 2, 1271, 1272, 5, 417, 209, 2, 1272, 1273, 5, 419, 210, 2, 1273, 1274, 5, 439, 220, 2, 1274, 1275, 5, 425, 213, 2, 1275, 276, 3, 2, 2, 2, 1276, 1277, 5, 437, 219, 2, 1277, 1278, 5, 431, 216, 2, 1278, 1279, 5, 445, 223, 2, 1279, 1280, 5, 447, 224, 2, 1280, 1281, 5, 425, 213, 2, 1281, 1282, 5, 443, 222, 2, 1282, 1283, 5, 457, 229, 2, 1283, 1284, 5, 441, 221, 2, 1284, 1285, 5, 425, 213, 2, 1285, 1286, 5, 451, 226, 2, 1286, 1287, 5, 417, 209, 2, 1287, 1288, 5, 455, 228, 2, 1288, 1289, 5, 425, 213, 2, 1289, 278, 3, 2, 2, 2, 1290, 1291, 5, 437, 219, 2, 1291, 1292, 5, 431, 216, 2, 1292, 1293, 5, 445, 223, 2, 1293, 1294, 5, 447, 224, 2, 1294, 1295, 5, 451, 226, 2, 1295, 1296, 5, 425, 213, 2, 1296, 1297, 5, 417, 209, 2, 1297, 1298, 5, 421, 211, 2, 1298, 1299, 5, 431, 216, 2, 1299, 1300, 5, 417, 209, 2, 1300, 1301, 5, 419, 210, 2, 1301, 1302, 5, 439, 220, 2, 1302, 1303, 5, 425, 213, 2, 1303, 1304, 5, 447, 224, 2, 1304, 1305, 5, 417, 209, 2, 1305, 1306, 5, 455, 228, 2, 1306, 1307, 5, 431, 216, 2, 1307, 280, 3, 2, 2, 2, 1308, 1309, 5, 447, 224, 2, 1309, 1310, 5, 447, 224, 2, 1310, 1311, 5, 451, 226, 2, 1311, 282, 3, 2, 2, 2, 1312, 1313, 5, 455, 228, 2, 1313, 1314, 5, 451, 226, 2, 1314, 1315, 5, 433, 217, 2, 1315, 1316, 5, 417, 209, 2, 1316, 1317, 5, 443, 222, 2, 1317, 1318, 5, 429, 215, 2, 1318, 1319, 5, 439, 220, 2, 1319, 1320, 5, 425, 213, 2, 1320, 1321, 5, 421, 211, 2, 1321, 1322, 5, 445, 223, 2, 1322, 1323, 5, 457, 229, 2, 1323, 1324, 5, 443, 222, 2, 1324, 1325, 5, 455, 228, 2, 1325, 1326, 5, 433, 217, 2, 1326, 1327, 5, 443, 222, 2, 1327, 1328, 5, 429, 215, 2, 1328, 284, 3, 2, 2, 2, 1329, 1330, 5, 421, 211, 2, 1330, 1331, 5, 439, 220, 2, 1331, 1332, 5, 445, 223, 2, 1332, 1333, 5, 453, 227, 2, 1333, 1334, 5, 425, 213, 2, 1334, 1335, 5, 443, 222, 2, 1335, 1336, 5, 425, 213, 2, 1336, 1337, 5, 453, 227, 2, 1337, 1338, 5, 453, 227, 2, 1338, 1339, 5, 421, 211, 2, 1339, 1340, 5, 425, 213, 2, 1340, 1341, 5, 443, 222, 2, 1341, 1342, 5, 455, 228, 2, 1342, 1343, 5, 451, 226, 2, 1343, 1344, 5, 417, 209, 2, 1344, 1345, 5, 439, 220, 2, 1345, 1346, 5, 433, 217, 2, 1346, 1347, 5, 455, 228, 2, 1347, 1348, 5, 465, 233, 2, 1348, 286, 3, 2, 2, 2, 1349, 1350, 5, 419, 210, 2, 1350, 1351, 5, 427, 214, 2, 1351, 1352, 5, 453, 227, 2, 1352, 1353, 5, 421, 211, 2, 1353, 1354, 5, 445, 223, 2, 1354, 1355, 5, 457, 229, 2, 1355, 1356, 5, 443, 222, 2, 1356, 1357, 5, 455, 228, 2, 1357, 288, 3, 2, 2, 2, 1358, 1359, 5, 447, 224, 2, 1359, 1360, 5, 451, 226, 2, 1360, 290, 3, 2, 2, 2, 1361, 1362, 5, 417, 209, 2, 1362, 1363, 5, 439, 220, 2, 1363, 1364, 5, 447, 224, 2, 1364, 1365, 5, 431, 216, 2, 1365, 1366, 5, 417, 209, 2, 1366, 292, 3, 2, 2, 2, 1367, 1368, 5, 441, 221, 2, 1368, 1369, 5, 417, 209, 2, 1369, 1370, 5, 463, 232, 2, 1370, 1371, 5, 433, 217, 2, 1371, 1372, 5, 455, 228, 2, 1372, 1373, 5, 425, 213, 2, 1373, 1374, 5, 451, 226, 2, 1374, 294, 3, 2, 2, 2, 1375, 1376, 5, 455, 228, 2, 1376, 1377, 5, 445, 223, 2, 1377, 1378, 5, 439, 220, 2, 1378, 296, 3, 2, 2, 2, 1379, 1380, 5, 453, 227, 2, 1380, 1381, 5, 453, 227, 2, 1381, 1382, 5, 453, 227, 2, 1382, 1383, 5, 447, 224, 2, 1383, 298, 3, 2, 2, 2, 1384, 1385, 5, 453, 227, 2, 1385, 1386, 5, 453, 227, 2, 1386, 1387, 5, 453, 227, 2, 1387, 1388, 5, 447, 224, 2, 1388, 1389, 5, 439, 220, 2, 1389, 1390, 5, 425, 213, 2, 1390, 1391, 5, 443, 222, 2, 1391, 300, 3, 2, 2, 2, 1392, 1393, 5, 439, 220, 2, 1393, 1394, 5, 417, 209, 2, 1394, 1395, 5, 419, 210, 2, 1395, 1396, 5, 425, 213, 2, 1396, 1397, 5, 439, 220, 2, 1397, 1398, 5, 447, 224, 2, 1398, 1399, 5, 451, 226, 2, 1399, 1400, 5, 445, 223, 2, 1400, 1401, 5, 447, 224, 2, 1401, 302, 3, 2, 2, 2, 1402, 1403, 5, 461, 231, 2, 1403, 1404, 5, 421, 211, 2, 1404, 1405, 5, 421, 211, 2, 1405, 304, 3, 2, 2, 2, 1406, 1407, 5, 421, 211, 2, 1407, 1408, 5, 439, 220, 2, 1408, 1409, 5, 457, 229, 2, 1409, 1410, 5, 453, 227, 2, 1410, 1411, 5, 455, 228, 2, 1411, 1412, 5, 425, 213, 2, 1412, 1413, 5, 451, 226, 2, 1413, 1414, 5, 421, 211, 2, 1414, 1415, 5, 445, 223, 2, 1415, 1416, 5, 425, 213, 2, 1416, 1417, 5, 427, 214, 2, 1417, 1418, 5, 427, 214, 2, 1418, 306, 3, 2, 2, 2, 1419, 1420, 5, 441, 221, 2, 1420, 1421, 5, 417, 209, 2, 1421, 1422, 5, 463, 232, 2, 1422, 1423, 5, 433, 217, 2, 1423, 1424, 5, 441, 221, 2, 1424, 1425, 5, 457, 229, 2, 1425, 1426, 5, 441, 221, 2, 1426, 1427, 5, 437, 219, 2, 1427, 1428, 5, 447, 224, 2, 1428, 1429, 5, 439, 220, 2, 1429, 1430, 5, 425, 213, 2, 1430, 1431, 5, 463, 232, 2, 1431, 308, 3, 2, 2, 2, 1432, 1433, 5, 421, 211, 2, 1433, 1434, 5, 445, 223, 2, 1434, 1435, 5, 451, 226, 2, 1435, 1436, 5, 425, 213, 2, 1436, 1437, 5, 455, 228, 2, 1437, 1438, 5, 451, 226, 2, 1438, 1439, 5, 457, 229, 2, 1439, 1440, 5, 453, 227, 2, 1440, 1441, 5, 453, 227, 2, 1441, 310, 3, 2, 2, 2, 1442, 1443, 5, 447, 224, 2, 1443, 1444, 5, 427, 214, 2, 1444, 1445, 5, 443, 222, 2, 1445, 312, 3, 2, 2, 2, 1446, 1447, 5, 437, 219, 2, 1447, 1448, 5, 431, 216, 2, 1448, 1449, 5, 445, 223, 2, 1449, 1450, 5, 447, 224, 2, 1450, 1451, 5, 421, 211, 2, 1451, 1452, 5, 445, 223, 2, 1452, 1453, 5, 457, 229, 2, 1453, 1454, 5, 443, 222, 2, 1454, 1455, 5, 455, 228, 2, 1455, 314, 3, 2, 2, 2, 1456, 1457, 5, 437, 219, 2, 1457, 1458, 5, 431, 216, 2, 1458, 1459, 5, 445, 223, 2, 1459, 1460, 5, 447, 224, 2, 1460, 1461, 5, 443, 222, 2, 1461, 1462, 5, 425, 213, 2, 1462, 1463, 5, 433, 217, 2, 1463, 1464, 5, 429, 215, 2, 1464, 1465, 5, 431, 216, 2, 1465, 1466, 5, 419, 210, 2, 1466, 1467, 5, 445, 223, 2, 1467, 1468, 5, 451, 226, 2, 1468, 316, 3, 2, 2, 2, 1469, 1470, 5, 453, 227, 2, 1470, 1471, 5, 431, 216, 2, 1471, 1472, 5, 445, 223, 2, 1472, 1473, 5, 451, 226, 2, 1473, 1474, 5, 455, 228, 2, 1474, 1475, 5, 425, 213, 2, 1475, 1476, 5, 453, 227, 2, 1476, 1477, 5, 455, 228, 2, 1477, 1478, 5, 447, 224, 2, 1478, 1479, 5, 417, 209, 2, 1479, 1480, 5, 455, 228, 2, 1480, 1481, 5, 431, 216, 2, 1481, 1482, 5, 421, 211, 2, 1482, 1483, 5, 445, 223, 2, 1483, 1484, 5, 457, 229, 2, 1484, 1485, 5, 443, 222, 2, 1485, 1486, 5, 455, 228, 2, 1486, 318, 3, 2, 2, 2, 1487, 1488, 5, 439, 220, 2, 1488, 1489, 5, 445, 223, 2, 1489, 1490, 5, 457, 229, 2, 1490, 1491, 5, 459, 230, 2, 1491, 1492, 5, 417, 209, 2, 1492, 1493, 5, 433, 217, 2, 1493, 1494, 5, 443, 222, 2, 1494, 320, 3, 2, 2, 2, 1495, 1496, 5, 433, 217, 2, 1496, 1497, 5, 421, 211, 2, 1497, 1498, 7, 51, 2, 2, 1498, 1499, 7, 54, 2, 2, 1499, 322, 3, 2, 2, 2, 1500, 1501, 5, 433, 217, 2, 1501, 1502, 5, 443, 222, 2, 1502, 1503, 5, 421, 211, 2, 1503, 1504, 5, 451, 226, 2, 1504, 1505, 5, 425, 213, 2, 1505, 1506, 5, 417, 209, 2, 1506, 1507, 5, 453, 227, 2, 1507, 1508, 5, 425, 213, 2, 1508, 324, 3, 2, 2, 2, 1509, 1510, 5, 433, 217, 2, 1510, 1511, 5, 443, 222, 2, 1511, 1512, 5, 453, 227, 2, 1512, 1513, 5, 425, 213, 2, 1513, 1514, 5, 451, 226, 2, 1514, 1515, 5, 455, 228, 2, 1515, 1516, 7, 34, 2, 2, 1516, 1517, 5, 423, 212, 2, 1517, 1518, 5, 417, 209, 2, 1518, 1519, 5, 455, 228, 2, 1519, 1520, 5, 417, 209, 2, 1520, 326, 3, 2, 2, 2, 1521, 1522, 5, 423, 212, 2, 1522, 1523, 5, 425, 213, 2, 1523, 1524, 5, 439, 220, 2, 1524, 1525, 5, 425, 213, 2, 1525, 1526, 5, 455, 228, 2, 1526, 1527, 5, 425, 213, 2, 1527, 1528, 7, 34, 2, 2, 1528, 1529, 5, 423, 212, 2, 1529, 1530, 5, 417, 209, 2, 1530, 1531, 5, 455, 228, 2, 1531, 1532, 5, 417, 209, 2, 1532, 328, 3, 2, 2, 2, 1533, 1534, 5, 423, 212, 2, 1534, 1535, 5, 425, 213, 2, 1535, 1536, 5, 439, 220, 2, 1536, 1537, 5, 425, 213, 2, 1537, 1538, 5, 455, 228, 2, 1538, 1539, 5, 425, 213, 2, 1539, 1540, 7, 34, 2, 2, 1540, 1541, 5, 461, 231, 2, 1541, 1542, 5, 431, 216, 2, 1542, 1543, 5, 425, 213, 2, 1543, 1544, 5, 451, 226, 2, 1544, 1545, 5, 425, 213, 2, 1545, 330, 3, 2, 2, 2, 1546, 1547, 5, 425, 213, 2, 1547, 1548, 5, 443, 222, 2, 1548, 1549, 5, 421, 211, 2, 1549, 1550, 5, 445, 223, 2, 1550, 1551, 5, 423, 212, 2, 1551, 1552, 5, 425, 213, 2, 1552, 1553, 7, 97, 2, 2, 1553, 1554, 5, 427, 214, 2, 1554, 1555, 5, 445, 223, 2, 1555, 1556, 5, 451, 226, 2, 1556, 1557, 7, 97, 2, 2, 1557, 1558, 5, 457, 229, 2, 1558, 1559, 5, 451, 226, 2, 1559, 1560, 5, 433, 217, 2, 1560, 332, 3, 2, 2, 2, 1561, 1562, 5, 441, 221, 2, 1562, 1563, 5, 423, 212, 2, 1563, 1564, 7, 55, 2, 2, 1564, 334, 3, 2, 2, 2, 1565, 1566, 5, 453, 227, 2, 1566, 1567, 5, 431, 216, 2, 1567, 1568, 5, 417, 209, 2, 1568, 1569, 7, 51, 2, 2, 1569, 336, 3, 2, 2, 2, 1570, 1571, 5, 453, 227, 2, 1571, 1572, 5, 431, 216, 2, 1572, 1573, 5, 417, 209, 2, 1573, 1574, 7, 52, 2, 2, 1574, 1575, 7, 55, 2, 2, 1575, 1576, 7, 56, 2, 2, 1576, 338, 3, 2, 2, 2, 1577, 1578, 5, 453, 227, 2, 1578, 1579, 5, 431, 216, 2, 1579, 1580, 5, 417, 209, 2, 1580, 1581, 7, 53, 2, 2, 1581, 1582, 7, 58, 2, 2, 1582, 1583, 7, 54, 2, 2, 1583, 340, 3, 2, 2, 2, 1584, 1585, 5, 453, 227, 2, 1585, 1586, 5, 431, 216, 2, 1586, 1587, 5, 417, 209, 2, 1587, 1588, 7, 55, 2, 2, 1588, 1589, 7, 51, 2, 2, 1589, 1590, 7, 52, 2, 2, 1590, 342, 3, 2, 2, 2, 1591, 1592, 5, 429, 215, 2, 1592, 1593, 5, 451, 226, 2, 1593, 1594, 5, 445, 223, 2, 1594, 1595, 5, 457, 229, 2, 1595, 1596, 5, 447, 224, 2, 1596, 1597, 7, 97, 2, 2, 1597, 1598, 5, 421, 211, 2, 1598, 1599, 5, 445, 223, 2, 1599, 1600, 5, 443, 222, 2, 1600, 1601, 5, 421, 211, 2, 1601, 1602, 5, 417, 209, 2, 1602, 1603, 5, 455, 228, 2, 1603, 344, 3, 2, 2, 2, 1604, 1608, 7, 62, 2, 2, 1605, 1607, 10, 2, 2, 2, 1606, 1605, 3, 2, 2, 2, 1607, 1610, 3, 2, 2, 2, 1608, 1606, 3, 2, 2, 2, 1608, 1609, 3, 2, 2, 2, 1609, 1611, 3, 2, 2, 2, 1610, 1608, 3, 2, 2, 2, 1611, 1612, 7, 64, 2, 2, 1612, 346, 3, 2, 2, 2, 1613, 1615, 5, 403, 202, 2, 1614, 1613, 3, 2, 2, 2, 1614, 1615, 3, 2, 2, 2, 1615, 1616, 3, 2, 2, 2, 1616, 1617, 7, 60, 2, 2, 1617, 348, 3, 2, 2, 2, 1618, 1619, 5, 347, 174, 2, 1619, 1620, 5, 405, 203, 2, 1620, 350, 3, 2, 2, 2, 1621, 1622, 7, 97, 2, 2, 1622, 1623, 7, 60, 2, 2, 1623, 1626, 3, 2, 2, 2, 1624, 1627, 5, 397, 199, 2, 1625, 1627, 9, 3, 2, 2, 1626, 1624, 3, 2, 2, 2, 1626, 1625, 3, 2, 2, 2, 1627, 1636, 3, 2, 2, 2, 1628, 1631, 5, 401, 201, 2, 1629, 1631, 7, 48, 2, 2, 1630, 1628, 3, 2, 2, 2, 1630, 1629, 3, 2, 2, 2, 1631, 1634, 3, 2, 2, 2, 1632, 1630, 3, 2, 2, 2, 1632, 1633, 3, 2, 2, 2, 1633, 1635, 3, 2, 2, 2, 1634, 1632, 3, 2, 2, 2, 1635, 1637, 5, 401, 201, 2, 1636, 1632, 3, 2, 2, 2, 1636, 1637, 3, 2, 2, 2, 1637, 352, 3, 2, 2, 2, 1638, 1639, 7, 65, 2, 2, 1639, 1640, 5, 399, 200, 2, 1640, 354, 3, 2, 2, 2, 1641, 1642, 7, 38, 2, 2, 1642, 1643, 5, 399, 200, 2, 1643, 356, 3, 2, 2, 2, 1644, 1646, 7, 66, 2, 2, 1645, 1647, 9, 4, 2, 2, 1646, 1645, 3, 2, 2, 2, 1647, 1648, 3, 2, 2, 2, 1648, 1646, 3, 2, 2, 2, 1648, 1649, 3, 2, 2, 2, 1649, 1658, 3, 2, 2, 2, 1650, 1652, 7, 47, 2, 2, 1651, 1653, 9, 5, 2, 2, 1652, 1651, 3, 2, 2, 2, 1653, 1654, 3, 2, 2, 2, 1654, 1652, 3, 2, 2, 2, 1654, 1655, 3, 2, 2, 2, 1655, 1657, 3, 2, 2, 2, 1656, 1650, 3, 2, 2, 2, 1657, 1660, 3, 2, 2, 2, 1658, 1656, 3, 2, 2, 2, 1658, 1659, 3, 2, 2, 2, 1659, 358, 3, 2, 2, 2, 1660, 1658, 3, 2, 2, 2, 1661, 1663, 9, 3, 2, 2, 1662, 1661, 3, 2, 2, 2, 1663, 1664, 3, 2, 2, 2, 1664, 1662, 3, 2, 2, 2, 1664, 1665, 3, 2, 2, 2, 1665, 360, 3, 2, 2, 2, 1666, 1668, 9, 3, 2, 2, 1667, 1666, 3, 2, 2, 2, 1668, 1671, 3, 2, 2, 2, 1669, 1667, 3, 2, 2, 2, 1669, 1670, 3, 2, 2, 2, 1670, 1672, 3, 2, 2, 2, 1671, 1669, 3, 2, 2, 2, 1672, 1674, 7, 48, 2, 2, 1673, 1675, 9, 3, 2, 2, 1674, 1673, 3, 2, 2, 2, 1675, 1676, 3, 2, 2, 2, 1676, 1674, 3, 2, 2, 2, 1676, 1677, 3, 2, 2, 2, 1677, 362, 3, 2, 2, 2, 1678, 1680, 9, 3, 2, 2, 1679, 1678, 3, 2, 2, 2, 1680, 1681, 3, 2, 2, 2, 1681, 1679, 3, 2, 2, 2, 1681, 1682, 3, 2, 2, 2, 1682, 1683, 3, 2, 2, 2, 1683, 1687, 7, 48, 2, 2, 1684, 1686, 9, 3, 2, 2, 1685, 1684, 3, 2, 2, 2, 1686, 1689, 3, 2, 2, 2, 1687, 1685, 3, 2, 2, 2, 1687, 1688, 3, 2, 2, 2, 1688, 1690, 3, 2, 2, 2, 1689, 1687, 3, 2, 2, 2, 1690, 1705, 5, 377, 189, 2, 1691, 1693, 7, 48, 2, 2, 1692, 1694, 9, 3, 2, 2, 1693, 1692, 3, 2, 2, 2, 1694, 1695, 3, 2, 2, 2, 1695, 1693, 3, 2, 2, 2, 1695, 1696, 3, 2, 2, 2, 1696, 1697, 3, 2, 2, 2, 1697, 1705, 5, 377, 189, 2, 1698, 1700, 9, 3, 2, 2, 1699, 1698, 3, 2, 2, 2, 1700, 1701, 3, 2, 2, 2, 1701, 1699, 3, 2, 2, 2, 1701, 1702, 3, 2, 2, 2, 1702, 1703, 3, 2, 2, 2, 1703, 1705, 5, 377, 189, 2, 1704, 1679, 3, 2, 2, 2, 1704, 1691, 3, 2, 2, 2, 1704, 1699, 3, 2, 2, 2, 1705, 364, 3, 2, 2, 2, 1706, 1707, 7, 45, 2, 2, 1707, 1708, 5, 359, 180, 2, 1708, 366, 3, 2, 2, 2, 1709, 1710, 7, 45, 2, 2, 1710, 1711, 5, 361, 181, 2, 1711, 368, 3, 2, 2, 2, 1712, 1713, 7, 45, 2, 2, 1713, 1714, 5, 363, 182, 2, 1714, 370, 3, 2, 2, 2, 1715, 1716, 7, 47, 2, 2, 1716, 1717, 5, 359, 180, 2, 1717, 372, 3, 2, 2, 2, 1718, 1719, 7, 47, 2, 2, 1719, 1720, 5, 361, 181, 2, 1720, 374, 3, 2, 2, 2, 1721, 1722, 7, 47, 2, 2, 1722, 1723, 5, 363, 182, 2, 1723, 376, 3, 2, 2, 2, 1724, 1726, 9, 6, 2, 2, 1725, 1727, 9, 7, 2, 2, 1726, 1725, 3, 2, 2, 2, 1726, 1727, 3, 2, 2, 2, 1727, 1729, 3, 2, 2, 2, 1728, 1730, 9, 3, 2, 2, 1729, 1728, 3, 2, 2, 2, 1730, 1731, 3, 2, 2, 2, 1731, 1729, 3, 2, 2, 2, 1731, 1732, 3, 2, 2, 2, 1732, 378, 3, 2, 2, 2, 1733, 1738, 7, 41, 2, 2, 1734, 1737, 10, 8, 2, 2, 1735, 1737, 5, 387, 194, 2, 1736, 1734, 3, 2, 2, 2, 1736, 1735, 3, 2, 2, 2, 1737, 1740, 3, 2, 2, 2, 1738, 1736, 3, 2, 2, 2, 1738, 1739, 3, 2, 2, 2, 1739, 1741, 3, 2, 2, 2, 1740, 1738, 3, 2, 2, 2, 1741, 1742, 7, 41, 2, 2, 1742, 380, 3, 2, 2, 2, 1743, 1748, 7, 36, 2, 2, 1744, 1747, 10, 9, 2, 2, 1745, 1747, 5, 387, 194, 2, 1746, 1744, 3, 2, 2, 2, 1746, 1745, 3, 2, 2, 2, 1747, 1750, 3, 2, 2, 2, 1748, 1746, 3, 2, 2, 2, 1748, 1749, 3, 2, 2, 2, 1749, 1751, 3, 2, 2, 2, 1750, 1748, 3, 2, 2, 2, 1751, 1752, 7, 36, 2, 2, 1752, 382, 3, 2, 2, 2, 1753, 1754, 7, 41, 2, 2, 1754, 1755, 7, 41, 2, 2, 1755, 1756, 7, 41, 2, 2, 1756, 1768, 3, 2, 2, 2, 1757, 1761, 7, 41, 2, 2, 1758, 1759, 7, 41, 2, 2, 1759, 1761, 7, 41, 2, 2, 1760, 1757, 3, 2, 2, 2, 1760, 1758, 3, 2, 2, 2, 1760, 1761, 3, 2, 2, 2, 1761, 1764, 3, 2, 2, 2, 1762, 1765, 10, 10, 2, 2, 1763, 1765, 5, 387, 194, 2, 1764, 1762, 3, 2, 2, 2, 1764, 1763, 3, 2, 2, 2, 1765, 1767, 3, 2, 2, 2, 1766, 1760, 3, 2, 2, 2, 1767, 1770, 3, 2, 2, 2, 1768, 1766, 3, 2, 2, 2, 1768, 1769, 3, 2, 2, 2, 1769, 1771, 3, 2, 2, 2, 1770, 1768, 3, 2, 2, 2, 1771, 1772, 7, 41, 2, 2, 1772, 1773, 7, 41, 2, 2, 1773, 1774, 7, 41, 2, 2, 1774, 384, 3, 2, 2, 2, 1775, 1776, 7, 36, 2, 2, 1776, 1777, 7, 36, 2, 2, 1777, 1778, 7, 36, 2, 2, 1778, 1790, 3, 2, 2, 2, 1779, 1783, 7, 36, 2, 2, 1780, 1781, 7, 36, 2, 2, 1781, 1783, 7, 36, 2, 2, 1782, 1779, 3, 2, 2, 2, 1782, 1780, 3, 2, 2, 2, 1782, 1783, 3, 2, 2, 2, 1783, 1786, 3, 2, 2, 2, 1784, 1787, 10, 11, 2, 2, 1785, 1787, 5, 387, 194, 2, 1786, 1784, 3, 2, 2, 2, 1786, 1785, 3, 2, 2, 2, 1787, 1789, 3, 2, 2, 2, 1788, 1782, 3, 2, 2, 2, 1789, 1792, 3, 2, 2, 2, 1790, 1788, 3, 2, 2, 2, 1790, 1791, 3, 2, 2, 2, 1791, 1793, 3, 2, 2, 2, 1792, 1790, 3, 2, 2, 2, 1793, 1794, 7, 36, 2, 2, 1794, 1795, 7, 36, 2, 2, 1795, 1796, 7, 36, 2, 2, 1796, 386, 3, 2, 2, 2, 1797, 1798, 7, 94, 2, 2, 1798, 1799, 9, 12, 2, 2, 1799, 388, 3, 2, 2, 2, 1800, 1804, 7, 42, 2, 2, 1801, 1803, 5, 391, 196, 2, 1802, 1801, 3, 2, 2, 2, 1803, 1806, 3, 2, 2, 2, 1804, 1802, 3, 2, 2, 2, 1804, 1805, 3, 2, 2, 2, 1805, 1807, 3, 2, 2, 2, 1806, 1804, 3, 2, 2, 2, 1807, 1808, 7, 43, 2, 2, 1808, 390, 3, 2, 2, 2, 1809, 1810, 9, 13, 2, 2, 1810, 1811, 3, 2, 2, 2, 1811, 1812, 8, 196, 2, 2, 1812, 392, 3, 2, 2, 2, 1813, 1817, 7, 93, 2, 2, 1814, 1816, 5, 391, 196, 2, 1815, 1814, 3, 2, 2, 2, 1816, 1819, 3, 2, 2, 2, 1817, 1815, 3, 2, 2, 2, 1817, 1818, 3, 2, 2, 2, 1818, 1820, 3, 2, 2, 2, 1819, 1817, 3, 2, 2, 2, 1820, 1821, 7, 95, 2, 2, 1821, 394, 3, 2, 2, 2, 1822, 1824, 9, 45, 2, 2, 1823, 1822, 3, 2, 2, 2, 1824, 396, 3, 2, 2, 2, 1825, 1828, 5, 395, 198, 2, 1826, 1828, 7, 97, 2, 2, 1827, 1825, 3, 2, 2, 2, 1827, 1826, 3, 2, 2, 2, 1828, 398, 3, 2, 2, 2, 1829, 1832, 5, 397, 199, 2, 1830, 1832, 9, 3, 2, 2, 1831, 1829, 3, 2, 2, 2, 1831, 1830, 3, 2, 2, 2, 1832, 1837, 3, 2, 2, 2, 1833, 1836, 5, 397, 199, 2, 1834, 1836, 9, 14, 2, 2, 1835, 1833, 3, 2, 2, 2, 1835, 1834, 3, 2, 2, 2, 1836, 1839, 3, 2, 2, 2, 1837, 1835, 3, 2, 2, 2, 1837, 1838, 3, 2, 2, 2, 1838, 400, 3, 2, 2, 2, 1839, 1837, 3, 2, 2, 2, 1840, 1843, 5, 397, 199, 2, 1841, 1843, 9, 15, 2, 2, 1842, 1840, 3, 2, 2, 2, 1842, 1841, 3, 2, 2, 2, 1843, 402, 3, 2, 2, 2, 1844, 1853, 5, 395, 198, 2, 1845, 1848, 5, 401, 201, 2, 1846, 1848, 7, 48, 2, 2, 1847, 1845, 3, 2, 2, 2, 1847, 1846, 3, 2, 2, 2, 1848, 1851, 3, 2, 2, 2, 1849, 1847, 3, 2, 2, 2, 1849, 1850, 3, 2, 2, 2, 1850, 1852, 3, 2, 2, 2, 1851, 1849, 3, 2, 2, 2, 1852, 1854, 5, 401, 201, 2, 1853, 1849, 3, 2, 2, 2, 1853, 1854, 3, 2, 2, 2, 1854, 404, 3, 2, 2, 2, 1855, 1859, 5, 397, 199, 2, 1856, 1859, 4, 50, 60, 2, 1857, 1859, 5, 407, 204, 2, 1858, 1855, 3, 2, 2, 2, 1858, 1856, 3, 2, 2, 2, 1858, 1857, 3, 2, 2, 2, 1859, 1873, 3, 2, 2, 2, 1860, 1864, 5, 401, 201, 2, 1861, 1864, 9, 16, 2, 2, 1862, 1864, 5, 407, 204, 2, 1863, 1860, 3, 2, 2, 2, 1863, 1861, 3, 2, 2, 2, 1863, 1862, 3, 2, 2, 2, 1864, 1867, 3, 2, 2, 2, 1865, 1863, 3, 2, 2, 2, 1865, 1866, 3, 2, 2, 2, 1866, 1871, 3, 2, 2, 2, 1867, 1865, 3, 2, 2, 2, 1868, 1872, 5, 401, 201, 2, 1869, 1872, 7, 60, 2, 2, 1870, 1872, 5, 407, 204, 2, 1871, 1868, 3, 2, 2, 2, 1871, 1869, 3, 2, 2, 2, 1871, 1870, 3, 2, 2, 2, 1872, 1874, 3, 2, 2, 2, 1873, 1865, 3, 2, 2, 2, 1873, 1874, 3, 2, 2, 2, 1874, 406, 3, 2, 2, 2, 1875, 1878, 5, 409, 205, 2, 1876, 1878, 5, 413, 207, 2, 1877, 1875, 3, 2, 2, 2, 1877, 1876, 3, 2, 2, 2, 1878, 408, 3, 2, 2, 2, 1879, 1880, 7, 39, 2, 2, 1880, 1881, 5, 411, 206, 2, 1881, 1882, 5, 411, 206, 2, 1882, 410, 3, 2, 2, 2, 1883, 1885, 9, 17, 2, 2, 1884, 1883, 3, 2, 2, 2, 1885, 412, 3, 2, 2, 2, 1886, 1887, 7, 94, 2, 2, 1887, 1888, 9, 18, 2, 2, 1888, 414, 3, 2, 2, 2, 1889, 1893, 7, 37, 2, 2, 1890, 1892, 10, 19, 2, 2, 1891, 1890, 3, 2, 2, 2, 1892, 1895, 3, 2, 2, 2, 1893, 1891, 3, 2, 2, 2, 1893, 1894, 3, 2, 2, 2, 1894, 1896, 3, 2, 2, 2, 1895, 1893, 3, 2, 2, 2, 1896, 1897, 8, 208, 3, 2, 1897, 416, 3, 2, 2, 2, 1898, 1899, 9, 20, 2, 2, 1899, 418, 3, 2, 2, 2, 1900, 1901, 9, 21, 2, 2, 1901, 420, 3, 2, 2, 2, 1902, 1903, 9, 22, 2, 2, 1903, 422, 3, 2, 2, 2, 1904, 1905, 9, 23, 2, 2, 1905, 424, 3, 2, 2, 2, 1906, 1907, 9, 6, 2, 2, 1907, 426, 3, 2, 2, 2, 1908, 1909, 9, 24, 2, 2, 1909, 428, 3, 2, 2, 2, 1910, 1911, 9, 25, 2, 2, 1911, 430, 3, 2, 2, 2, 1912, 1913, 9, 26, 2, 2, 1913, 432, 3, 2, 2, 2, 1914, 1915, 9, 27, 2, 2, 1915, 434, 3, 2, 2, 2, 1916, 1917, 9, 28, 2, 2, 1917, 436, 3, 2, 2, 2, 1918, 1919, 9, 29, 2, 2, 1919, 438, 3, 2, 2, 2, 1920, 1921, 9, 30, 2, 2, 1921, 440, 3, 2, 2, 2, 1922, 1923, 9, 31, 2, 2, 1923, 442, 3, 2, 2, 2, 1924, 1925, 9, 32, 2, 2, 1925, 444, 3, 2, 2, 2, 1926, 1927, 9, 33, 2, 2, 1927, 446, 3, 2, 2, 2, 1928, 1929, 9, 34, 2, 2, 1929, 448, 3, 2, 2, 2, 1930, 1931, 9, 35, 2, 2, 1931, 450, 3, 2, 2, 2, 1932, 1933, 9, 36, 2, 2, 1933, 452, 3, 2, 2, 2, 1934, 1935, 9, 37, 2, 2, 1935, 454, 3, 2, 2, 2, 1936, 1937, 9, 38, 2, 2, 1937, 456, 3, 2, 2, 2, 1938, 1939, 9, 39, 2, 2, 1939, 458, 3, 2, 2, 2, 1940, 1941, 9, 40, 2, 2, 1941, 460, 3, 2, 2, 2, 1942, 1943, 9, 41, 2, 2, 1943, 462, 3, 2, 2, 2, 1944, 1945, 9, 42, 2, 2, 1945, 464, 3, 2, 2, 2, 1946, 1947, 9, 43, 2, 2, 1947, 466, 3, 2, 2, 2, 1948, 1949, 9, 44, 2, 2, 1949, 468, 3, 2, 2, 2, 51, 2, 1608, 1614, 1626, 1630, 1632, 1636, 1648, 1654, 1658, 1664, 1669, 1676, 1681, 1687, 1695, 1701, 1704, 1726, 1731, 1736, 1738, 1746, 1748, 1760, 1764, 1768, 1782, 1786, 1790, 1804, 1817, 1823, 1827, 1831, 1835, 1837, 1842, 1847, 1849, 1853, 1858, 1863, 1865, 1871, 1873, 1877, 1884, 1893, 4, 8, 2, 2, 2, 3, 2]
\ No newline at end of file
-- 
2.43.0


From 8c11eb45dc573620cbbcf78ddbd45cce935b0b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:49 +0000
Subject: [PATCH 058/107] fix: changing a value whose blocks were freed let
 them be freed twice

---
 KVstore/ISArray/ISArray.cpp | 1 +
 KVstore/IVArray/IVArray.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/KVstore/ISArray/ISArray.cpp b/KVstore/ISArray/ISArray.cpp
index a58d1aa..da2b779 100644
--- a/KVstore/ISArray/ISArray.cpp
+++ b/KVstore/ISArray/ISArray.cpp
@@ -443,6 +443,7 @@ ISArray::modify(unsigned _key, char *_str, unsigned _len)
 
 	unsigned store = array[_key].getStore();
 	BM->FreeBlocks(store);
+	array[_key].setStore(0);
 	AddInCache(_key, _str, _len);
 
 	this->AccessLock.unlock();
diff --git a/KVstore/IVArray/IVArray.cpp b/KVstore/IVArray/IVArray.cpp
index cc80060..b3f7d08 100644
--- a/KVstore/IVArray/IVArray.cpp
+++ b/KVstore/IVArray/IVArray.cpp
@@ -468,6 +468,7 @@ IVArray::modify(unsigned _key, char *_str, unsigned long _len)
 		//cout << "free disk and set" << endl;
 		unsigned store = array[_key].getStore();
 		BM->FreeBlocks(store);
+		array[_key].setStore(0);
 		AddInCache(_key, _str, _len);
 		
 	}
-- 
2.43.0


From a916162c9cc7e6b482fee34103b84bdbba84c689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:49 +0000
Subject: [PATCH 059/107] fix: arrays grew one entry too few for some new keys

---
 KVstore/ISArray/ISArray.cpp | 4 ++--
 KVstore/IVArray/IVArray.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/KVstore/ISArray/ISArray.cpp b/KVstore/ISArray/ISArray.cpp
index da2b779..5e3c018 100644
--- a/KVstore/ISArray/ISArray.cpp
+++ b/KVstore/ISArray/ISArray.cpp
@@ -344,8 +344,8 @@ ISArray::insert(unsigned _key, char *_str, unsigned _len)
 	{
 		// Alloc = true;
 		CurEntryNumChange = true;
-		// temp is the smallest number >= _key and mod SET_KEY_INC = 0
-		unsigned temp = ((_key + (1 << 10) - 1) >> 10) << 10;
+		// temp is the smallest number > _key and mod SET_KEY_INC = 0
+		unsigned temp = ((_key + (1 << 10)) >> 10) << 10;
 		unsigned OldEntryNum = CurEntryNum;
 		CurEntryNum = max(OldEntryNum << 1, temp);
 		CurEntryNum = ISMIN(CurEntryNum, static_cast<unsigned>(ISMAXKEYNUM));
diff --git a/KVstore/IVArray/IVArray.cpp b/KVstore/IVArray/IVArray.cpp
index b3f7d08..f8b33f0 100644
--- a/KVstore/IVArray/IVArray.cpp
+++ b/KVstore/IVArray/IVArray.cpp
@@ -354,7 +354,7 @@ IVArray::insert(unsigned _key, char *_str, unsigned long _len)
 		unsigned OldEntryNum = CurEntryNum;
 //		CurEntryNum = max(CurEntryNum + IVArray::SET_KEY_INC, temp);
 		CurEntryNum = IVMIN(OldEntryNum << 1, static_cast<unsigned>(IVMAXKEYNUM));
-		while (_key > CurEntryNum)
+		while (_key >= CurEntryNum)
 		{
 			CurEntryNum = IVMIN(CurEntryNum << 1, static_cast<unsigned>(IVMAXKEYNUM));
 		}
@@ -698,7 +698,7 @@ IVArray::TryExclusiveLatch(unsigned _key, shared_ptr<Transaction> txn, bool has_
 			//assuming one expand is enough
 			unsigned OldEntryNum = CurEntryNum;
 			CurEntryNum = IVMIN(OldEntryNum << 1, static_cast<unsigned>(IVMAXKEYNUM));
-			while (_key > CurEntryNum)
+			while (_key >= CurEntryNum)
 			{
 				CurEntryNum = IVMIN(CurEntryNum << 1, static_cast<unsigned>(IVMAXKEYNUM));
 			}
-- 
2.43.0


From 2e5e92a0accb5e8ed199f424011c62bd1db6e5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:49 +0000
Subject: [PATCH 060/107] fix: pinning a cached list lost it from the cache and
 its size from the count

---
 KVstore/IVArray/IVArray.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/KVstore/IVArray/IVArray.cpp b/KVstore/IVArray/IVArray.cpp
index f8b33f0..afe8a6b 100644
--- a/KVstore/IVArray/IVArray.cpp
+++ b/KVstore/IVArray/IVArray.cpp
@@ -491,6 +491,8 @@ IVArray::PinCache(unsigned _key)
 	{
 		RemoveFromLRUQueue(_key);
 
+		// it leaves the queue, not the cache
+		array[_key].setCacheFlag(true);
 		array[_key].setCachePinFlag(true);
 	
 		return;
@@ -504,6 +506,7 @@ IVArray::PinCache(unsigned _key)
 		return;
 	}
 
+	CurCacheSize += _len;
 	array[_key].setBstr(_str, _len);
 	array[_key].setCacheFlag(true);
 	array[_key].setCachePinFlag(true);
-- 
2.43.0


From 46997f5f3c06e3fe5b1920cc0ea549aad2ffe18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 061/107] fix: growing an array unpinned the lists pinned in
 its cache

---
 KVstore/IVArray/IVEntry.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/KVstore/IVArray/IVEntry.cpp b/KVstore/IVArray/IVEntry.cpp
index a322f92..18fc8f6 100644
--- a/KVstore/IVArray/IVEntry.cpp
+++ b/KVstore/IVArray/IVEntry.cpp
@@ -151,6 +151,7 @@ IVEntry::Copy(const IVEntry& _entry)
 	this->cacheFlag = _entry.cacheFlag;
 	this->dirtyFlag = _entry.dirtyFlag;
 	this->usedFlag = _entry.usedFlag;
+	this->CachePinFlag = _entry.CachePinFlag;
 	if (_entry.value != NULL)
 	{
 		this->value = new Bstr();
-- 
2.43.0


From 6e41ace309b135dc02cbe5d182d52d9e448cbada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 062/107] fix: removing or changing a key beyond the array read
 outside it

---
 KVstore/IVArray/IVArray.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/KVstore/IVArray/IVArray.cpp b/KVstore/IVArray/IVArray.cpp
index afe8a6b..0c5cd63 100644
--- a/KVstore/IVArray/IVArray.cpp
+++ b/KVstore/IVArray/IVArray.cpp
@@ -402,7 +402,7 @@ IVArray::insert(unsigned _key, char *_str, unsigned long _len)
 bool
 IVArray::remove(unsigned _key)
 {
-	if (!array[_key].isUsed())
+	if (_key >= CurEntryNum || !array[_key].isUsed())
 	{
 		return false;
 	}
@@ -441,7 +441,7 @@ bool
 IVArray::modify(unsigned _key, char *_str, unsigned long _len)
 {
 	//cout << "this IVArray::modify " << endl;
-	if (!array[_key].isUsed())
+	if (_key >= CurEntryNum || !array[_key].isUsed())
 	{
 		
 		return false;
-- 
2.43.0


From cf637ac797f8961a18094e48256d8619c5fc24c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:52 +0000
Subject: [PATCH 063/107] fix: answers of kHopReachable for several pairs were
 not separated

---
 Query/GeneralEvaluation.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 3c202ec..1101b67 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -1844,6 +1844,10 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 								if (hopConstraint < 0)
 									hopConstraint = 999;
 								bool reachRes = pqHandler->kHopReachable(uid, vid, proj[0].path_args.directed, hopConstraint, pred_id_set);
+							if (notFirstOutput)
+								ss << ",";
+							else
+								notFirstOutput = 1;
 								ss << "{\"src\":\"" << kvstore->getStringByID(uid) << "\",\"dst\":\""
 								   << kvstore->getStringByID(vid) << "\",\"value\":";
 								if (reachRes)
@@ -2965,6 +2969,10 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 									if (hopConstraint < 0)
 										hopConstraint = 999;
 									bool reachRes = pqHandler->kHopReachable(uid, vid, proj[i].path_args.directed, hopConstraint, pred_id_set);
+								if (notFirstOutput)
+									ss << ",";
+								else
+									notFirstOutput = 1;
 									ss << "{\"src\":\"" << kvstore->getStringByID(uid) << "\",\"dst\":\"" \
 										<< kvstore->getStringByID(vid) << "\",\"value\":";
 									cout << "src = " << kvstore->getStringByID(uid) << ", dst = " << kvstore->getStringByID(vid) << endl;
-- 
2.43.0


From 55bbf87256a1b986e147e679cf11255fa47399b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:52 +0000
Subject: [PATCH 064/107] fix: SSSP showed edges taken backwards as edges of
 the data

---
 Query/PathQueryHandler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Query/PathQueryHandler.cpp b/Query/PathQueryHandler.cpp
index 4f6e46a..3153090 100644
--- a/Query/PathQueryHandler.cpp
+++ b/Query/PathQueryHandler.cpp
@@ -2174,7 +2174,7 @@ unordered_map<int, vector<int>> PathQueryHandler::SSSP(int uid, bool directed, c
 				{
 					vis.insert(to);
 					res[to] = res[vid];
-					res[to].push_back(pred);
+					res[to].push_back(-pred - 1);
 					res[to].push_back(to);
 					Q.push(to);
 				}
-- 
2.43.0


From 12fbf30713c8ecae27577c6ca7d7d4fd83297c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:52 +0000
Subject: [PATCH 065/107] fix: undirected cyclePath showed edges taken
 backwards as edges of the data

---
 Query/PathQueryHandler.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Query/PathQueryHandler.cpp b/Query/PathQueryHandler.cpp
index 3153090..14f8170 100644
--- a/Query/PathQueryHandler.cpp
+++ b/Query/PathQueryHandler.cpp
@@ -581,12 +581,12 @@ std::vector<int> PathQueryHandler::cycle(int uid, int vid, bool directed,
 		// 	ans.push_back(s.top());
 		// 	s.pop();
 		// }
-		ans = shortestPath0(uid, vid, false, pred_set);
+		ans = shortestPath(uid, vid, false, pred_set);
 		int lens = ans.size();
 		if (lens == 0)
 			return ans;
-		for (int i = lens - 2; i > 0; --i)
-			ans.push_back(ans[i]);
+		for (int i = lens - 2; i > 0; --i) // Odd positions hold predicates, which the way back takes in the opposite direction
+			ans.push_back(i % 2 == 1 ? -ans[i] - 1 : ans[i]);
 		ans.push_back(uid);
 		return ans;
 	}
-- 
2.43.0


From 76ead4e27f663f98e3646fae3e5dd538d38c25b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:52 +0000
Subject: [PATCH 066/107] fix: closenessCentrality of a vertex that reaches
 nothing was not a number

---
 Query/PathQueryHandler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Query/PathQueryHandler.cpp b/Query/PathQueryHandler.cpp
index 14f8170..9c210bc 100644
--- a/Query/PathQueryHandler.cpp
+++ b/Query/PathQueryHandler.cpp
@@ -1953,6 +1953,8 @@ double PathQueryHandler::closenessCentrality(int uid, bool directed, const std::
 			}
 		}
 	}
+	if (sum == 0) // No other vertex is reachable
+		return 0;
 	return 1.0 * (cnt - 1) / sum;
 }
 
-- 
2.43.0


From e5fb2bebfc1a8dacf7a77996f2eb288bc6124ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:52 +0000
Subject: [PATCH 067/107] fix: kHopNeighbor of a variable named the list of
 vertices unlike its documentation

---
 Query/GeneralEvaluation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 1101b67..1e93335 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -3226,7 +3226,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 										notFirstOutput = 1;
 									ss << "{\"src\":\"" << kvstore->getStringByID(uid) 
 										<< "\",\"depth\":" << hopConstraint 
-										<< ", \"neighbor\":["; 
+										<< ", \"dst\":["; 
 									bool hasMore = false;
 									for (int nid : ret)
 									{
-- 
2.43.0


From 98da24cb5470aa5ae4f7db95167a9cc32504e36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:05 +0000
Subject: [PATCH 068/107] fix: path functions indexed by vertices beyond the
 number of vertices

---
 Database/Database.cpp       |  4 ++--
 Query/GeneralEvaluation.cpp |  8 +-------
 Query/PathQueryHandler.cpp  | 40 ++++++++++++++++++++++++++-----------
 Query/PathQueryHandler.h    |  3 ++-
 4 files changed, 33 insertions(+), 22 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 37c252a..18abdc0 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -897,7 +897,7 @@ bool Database::load(Socket &socket, bool loadCSR)
 			cout << this->csr[1].offset_list[i].size() << endl;
 			cout << this->csr[1].adjacency_list[i].size() << endl;
 		}
-		csr[1].n = this->entity_num;
+		csr[1].n = this->limitID_entity; // The path functions index arrays of this size by entity IDs
 
 		unsigned ret = 0;
 		for (int i = 0; i < csr[1].pre_num; i++)	// Same as summing that of csr[0]
@@ -1157,7 +1157,7 @@ bool Database::load(bool loadCSR)
 			cout << this->csr[1].offset_list[i].size() << endl;
 			cout << this->csr[1].adjacency_list[i].size() << endl;
 		}
-		csr[1].n = this->entity_num;
+		csr[1].n = this->limitID_entity; // The path functions index arrays of this size by entity IDs
 
 		unsigned ret = 0;
 		for (auto i = 0; i < csr[1].pre_num; i++)	// Same as summing that of csr[0]
diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 1e93335..78088d8 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -297,13 +297,7 @@ GeneralEvaluation::loadCSR()
 		cout<<csr[1].adjacency_list[i].size()<<endl;
 	}
 	// init vertices and edges num
-	set<int> vertices;
-	for (int j = 0; j < 2; j++)
-	{
-		for (unsigned i = 0; i < csr[j].pre_num; i++)
-			vertices.insert(csr[j].adjacency_list[i].begin(), csr[j].adjacency_list[i].end());
-	}
-	csr[1].n = vertices.size();
+	csr[1].n = limitID_entity;	// The functions index arrays of this size by entity IDs
 
 	unsigned ret = 0;
 	for (auto i = 0; i < csr[1].pre_num; i++)	// Same as summing that of csr[0]
diff --git a/Query/PathQueryHandler.cpp b/Query/PathQueryHandler.cpp
index 9c210bc..92c303b 100644
--- a/Query/PathQueryHandler.cpp
+++ b/Query/PathQueryHandler.cpp
@@ -35,6 +35,14 @@ int PathQueryHandler::getVertNum()
 	return csr[1].n;
 }
 
+bool PathQueryHandler::isVertex(int vid)
+{
+	for (unsigned i = 0; i < csr[1].pre_num; i++)
+		if (getOutSize(vid, i) != 0 || getInSize(vid, i) != 0)
+			return true;
+	return false;
+}
+
 int PathQueryHandler::getEdgeNum()
 {
 	// if (m != -1)
@@ -2055,12 +2063,16 @@ void PathQueryHandler::PR(bool directed, const std::vector<int> &pred_set, int r
 std::vector<std::pair<int, double>> &idx2val)
 {
 	// initialize
-	int nodeNum = getVertNum();
+	vector<int> vertices;
+	for (int vid = 0; vid < getVertNum(); ++vid)
+		if (isVertex(vid))
+			vertices.push_back(vid);
+	int nodeNum = vertices.size();
 	if (retNum > nodeNum)
 		retNum = nodeNum;
-	vector<int> neiNum(nodeNum);
-	vector<double> oldPR(nodeNum), newPR(nodeNum);
-	for (int vid = 0; vid < nodeNum; ++vid)
+	vector<int> neiNum(getVertNum());
+	vector<double> oldPR(getVertNum()), newPR(getVertNum());
+	for (int vid : vertices)
 		for (int pred : pred_set)
 		{
 			neiNum[vid] += getOutSize(vid, pred);
@@ -2069,7 +2081,7 @@ std::vector<std::pair<int, double>> &idx2val)
 			neiNum[vid] += getInSize(vid, pred);
 		}
 	double offset = (1 - alpha) / nodeNum;
-	for (int vid = 0; vid < nodeNum; ++vid)
+	for (int vid : vertices)
 		oldPR[vid] = 1.0 / nodeNum, newPR[vid] = offset;
 	// iterate
 	bool stop = false;
@@ -2078,12 +2090,12 @@ std::vector<std::pair<int, double>> &idx2val)
 	{
 		stop = true;
 		// update
-		for (int vid = 0; vid < nodeNum; ++vid)
+		for (int vid : vertices)
 		{
 			if (!neiNum[vid]) // dangling nodes
 			{
 				double add = alpha * oldPR[vid] / nodeNum;
-				for (int to = 0; to < nodeNum; ++to)
+				for (int to : vertices)
 				{
 					newPR[to] += add;
 				}
@@ -2111,7 +2123,7 @@ std::vector<std::pair<int, double>> &idx2val)
 			}
 		}
 		// compare
-		for (int vid = 0; vid < nodeNum; ++vid)
+		for (int vid : vertices)
 		{
 			if (abs(newPR[vid] - oldPR[vid]) > tol)
 				stop = false;
@@ -2120,8 +2132,8 @@ std::vector<std::pair<int, double>> &idx2val)
 		}
 	}
 	idx2val.clear();
-	for (int i = 0; i < nodeNum; i++)
-		idx2val.emplace_back(i, oldPR[i]);
+	for (int vid : vertices)
+		idx2val.emplace_back(vid, oldPR[vid]);
 	// Extract top-k results
 	if (retNum != -1 && retNum < nodeNum) {
 		sort(idx2val.begin(), idx2val.end(), [](pair<size_t, double> const &l, pair<size_t, double> const &r)
@@ -2401,8 +2413,12 @@ vector<vector<int>> PathQueryHandler::labelProp(bool directed, const std::vector
 			int idx = 0;
 			for (auto com : coms)
 				lbl2id[com] = idx++;
+			if (maxLabels.empty()) // There are no edges
+				maxLabels = labels;
 			for (unsigned vid = 0; vid < nodeNum; vid++)
-				res[lbl2id[maxLabels[vid]]].push_back(vid);
+				if (g.isVertex(vid))
+					res[lbl2id[maxLabels[vid]]].push_back(vid);
+			res.erase(remove_if(res.begin(), res.end(), [](const vector<int> &com) { return com.empty(); }), res.end());
 			return res;
 		}
 	};
@@ -2458,7 +2474,7 @@ vector<vector<int>> PathQueryHandler::WCC(const std::vector<int> &pred_set)
 	int vertex_num = getVertNum();
 	for (int vertexid = 0; vertexid < vertex_num; ++vertexid)
 	{
-		if (vid2wccid.count(vertexid) == 0)
+		if (vid2wccid.count(vertexid) == 0 && isVertex(vertexid))
 		{
 			cout << "start vertexid: " << vertexid << endl;
 
diff --git a/Query/PathQueryHandler.h b/Query/PathQueryHandler.h
index db11020..de7216d 100644
--- a/Query/PathQueryHandler.h
+++ b/Query/PathQueryHandler.h
@@ -339,7 +339,8 @@ public:
 
 	// Labeled graph interface: edge (u, v, pred)
 
-	int getVertNum();	// Get total number of vertices
+	int getVertNum();	// Get the upper bound of the vertices' IDs
+	bool isVertex(int vid);	// Whether an edge of any predicate starts or ends at the entity
 	int getEdgeNum();	// Get total number of edges
     int getSetEdgeNum(const std::vector<int> &pred_set);    // TODO: Get the number of edges labeled by preds in pred_set
 	int getInIndexByID(int vid, int pred);	// Get vertice's index in csr[1] offset_list
-- 
2.43.0


From 232bca8850aa384d5addfc3c68c8e1e3d4ec471f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:05 +0000
Subject: [PATCH 069/107] fix: path functions of a name not in the data or of a
 literal indexed outside their arrays

---
 Query/GeneralEvaluation.cpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 78088d8..ce2cb27 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -1617,12 +1617,20 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 					for (auto vert : proj[0].path_args.vert_set)
 						uid_ls_ls.back().push_back(kvstore->getIDByString(vert));
 					if (!proj[0].path_args.src.empty())
-						uid_ls.push_back(kvstore->getIDByString(proj[0].path_args.src));
+					{
+						TYPE_ENTITY_LITERAL_ID src_id = kvstore->getIDByString(proj[0].path_args.src);
+						if (src_id < Util::LITERAL_FIRST_ID)	// Otherwise no such vertex
+							uid_ls.push_back(src_id);
+					}
 					else
 						uid_ls.push_back(-1);	// Dummy for loop
 					// if (proj[0].aggregate_type != ProjectionVar::ppr_type)
 					if (!proj[0].path_args.dst.empty())
-						vid_ls.push_back(kvstore->getIDByString(proj[0].path_args.dst));
+					{
+						TYPE_ENTITY_LITERAL_ID dst_id = kvstore->getIDByString(proj[0].path_args.dst);
+						if (dst_id < Util::LITERAL_FIRST_ID)	// Otherwise no such vertex
+							vid_ls.push_back(dst_id);
+					}
 					else
 						vid_ls.push_back(-1);	// Dummy for loop
 					if (!proj[0].path_args.pred_set.empty())
@@ -2770,13 +2778,17 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 								{
 									for (int j = begin; j <= end; j++)
 									{
-										if (result0.result[j].id[var2temp] != INVALID)
+										if (result0.result[j].id[var2temp] < Util::LITERAL_FIRST_ID)	// Neither unbound nor a literal
 											uid_ls.push_back(result0.result[j].id[var2temp]);
 									}
 								}
 							}
 							else	// src is an IRI
-								uid_ls.push_back(kvstore->getIDByString(proj[i].path_args.src));
+							{
+								TYPE_ENTITY_LITERAL_ID src_id = kvstore->getIDByString(proj[i].path_args.src);
+								if (src_id < Util::LITERAL_FIRST_ID)	// Otherwise no such vertex
+									uid_ls.push_back(src_id);
+							}
 						}
 						else
 							uid_ls.push_back(-1);	// Dummy for loop
@@ -2794,13 +2806,17 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 								{
 									for (int j = begin; j <= end; j++)
 									{
-										if (result0.result[j].id[var2temp] != INVALID)
+										if (result0.result[j].id[var2temp] < Util::LITERAL_FIRST_ID)	// Neither unbound nor a literal
 											vid_ls.push_back(result0.result[j].id[var2temp]);
 									}
 								}
 							}
 							else	// dst is an IRI
-								vid_ls.push_back(kvstore->getIDByString(proj[i].path_args.dst));
+							{
+								TYPE_ENTITY_LITERAL_ID dst_id = kvstore->getIDByString(proj[i].path_args.dst);
+								if (dst_id < Util::LITERAL_FIRST_ID)	// Otherwise no such vertex
+									vid_ls.push_back(dst_id);
+							}
 						}
 						else
 							vid_ls.push_back(-1);	// Dummy for loop
-- 
2.43.0


From c88f666e9325f4d97dc935c048862e58acf6c065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:29 +0000
Subject: [PATCH 070/107] fix: shortestPathCount from a vertex to itself
 counted walks away and back

---
 Query/PathQueryHandler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Query/PathQueryHandler.cpp b/Query/PathQueryHandler.cpp
index 92c303b..2323055 100644
--- a/Query/PathQueryHandler.cpp
+++ b/Query/PathQueryHandler.cpp
@@ -6158,6 +6158,8 @@ int PathQueryHandler::kHopCount(int uid, bool directed, int k, const std::vector
 */
 int PathQueryHandler::shortestPathCount(int uid, int vid, bool directed, const std::vector<int> &pred_set)
 {
+	if (uid == vid) // Only the empty path
+		return 1;
 	int N = getVertNum();
 	std::vector<int> q[2], tq[2];
 	std::vector<int> scnt(N, 0), tcnt(N, 0); // scnt[v]: s--v, number of all shortest paths
-- 
2.43.0


From 7d61489cec3d4cb7c2d8a9375d66e3d5a7c9d360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:29 +0000
Subject: [PATCH 071/107] fix: loops and parallel edges counted as sides of
 further triangles

---
 Query/PathQueryHandler.cpp | 81 ++++++++++++++++++++++----------------
 1 file changed, 47 insertions(+), 34 deletions(-)

diff --git a/Query/PathQueryHandler.cpp b/Query/PathQueryHandler.cpp
index 2323055..3cb14f4 100644
--- a/Query/PathQueryHandler.cpp
+++ b/Query/PathQueryHandler.cpp
@@ -1830,41 +1830,38 @@ long long PathQueryHandler::triangleCounting(bool directed, const std::vector<in
 
 		// directed: get the in-neighbor set of the current node
 		// directed: neighbor
-		unordered_set<int> inSet;
+		unordered_set<int> inSet, outSet; // without the vertex itself: a loop is no side of a triangle
 		for (int pred : pred_set)
 		{
 			int inSize = getInSize(vid, pred);
 			for (int j = 0; j < inSize; j++)
 				inSet.insert(getInVertID(vid, pred, j));
-			if (directed == 0)
-			{
-				int outSize = getOutSize(vid, pred);
-				for (int j = 0; j < outSize; j++)
-					inSet.insert(getOutVertID(vid, pred, j));
-			}
+			int outSize = getOutSize(vid, pred);
+			for (int j = 0; j < outSize; j++)
+				(directed ? outSet : inSet).insert(getOutVertID(vid, pred, j));
 		}
+		inSet.erase(vid);
+		outSet.erase(vid);
 
 		// directed:
 		// for each out-neighbor, intersect its out-neighbors with the current node's in-neighbors
 		// the size of the intersection is the # of triangles
 		if (directed)
 		{
-			for (int pred : pred_set)
+			for (int outNode : outSet)
 			{
-				int outSize = getOutSize(vid, pred);
-				for (int j = 0; j < outSize; j++)
+				unordered_set<int> nbrs;
+				for (int pd : pred_set)
 				{
-					int outNode = getOutVertID(vid, pred, j);
-					for (int pd : pred_set)
-					{
-						int outOutSize = getOutSize(outNode, pd);
-						for (int k = 0; k < outOutSize; k++)
-						{
-							int outOutNode = getOutVertID(outNode, pd, k);
-							if (inSet.find(outOutNode) != inSet.end())
-								numTriangle++;
-						}
-					}
+					int outOutSize = getOutSize(outNode, pd);
+					for (int k = 0; k < outOutSize; k++)
+						nbrs.insert(getOutVertID(outNode, pd, k));
+				}
+				nbrs.erase(outNode);
+				for (int outOutNode : nbrs)
+				{
+					if (inSet.find(outOutNode) != inSet.end())
+						numTriangle++;
 				}
 			}
 		}
@@ -1888,6 +1885,7 @@ long long PathQueryHandler::triangleCounting(bool directed, const std::vector<in
 						nbrs.insert(getInVertID(outNode, pred, k));
 					}
 				}
+				nbrs.erase(outNode);
 				for (int outOutNode : nbrs)
 				{
 					if (inSet.find(outOutNode) != inSet.end())
@@ -2577,24 +2575,35 @@ double PathQueryHandler::clusteringCoeff(int uid, bool directed, const std::vect
 			}
 		}
 
+		unordered_set<int> outSet;
 		for (int pred : pred_set)
 		{
 			int outSize = getOutSize(uid, pred);
 			for (int j = 0; j < outSize; j++)
 			{
-				int outNode = getOutVertID(uid, pred, j);
-				if (!neighbors.count(outNode))
-					neighbors.insert(outNode);
-				for (int pd : pred_set) // all out neighbors
-				{
-					int outOutSize = getOutSize(outNode, pd);
-					for (int k = 0; k < outOutSize; k++)
-					{
-						int outOutNode = getOutVertID(outNode, pd, k);
-						if (inSet.count(outOutNode))
-							dins++; // directed neighbors size
-					}
-				}
+				outSet.insert(getOutVertID(uid, pred, j));
+				neighbors.insert(getOutVertID(uid, pred, j));
+			}
+		}
+		// a loop is no side of a triangle
+		inSet.erase(uid);
+		outSet.erase(uid);
+		neighbors.erase(uid);
+
+		for (int outNode : outSet)
+		{
+			unordered_set<int> nbrs;
+			for (int pd : pred_set) // all out neighbors
+			{
+				int outOutSize = getOutSize(outNode, pd);
+				for (int k = 0; k < outOutSize; k++)
+					nbrs.insert(getOutVertID(outNode, pd, k));
+			}
+			nbrs.erase(outNode);
+			for (int outOutNode : nbrs)
+			{
+				if (inSet.count(outOutNode))
+					dins++; // directed neighbors size
 			}
 		}
 		int ns = neighbors.size(); // indirected neighbors size
@@ -2625,6 +2634,7 @@ double PathQueryHandler::clusteringCoeff(int uid, bool directed, const std::vect
 			}
 		}
 
+		neiSet.erase(uid);
 		for (int neiNode : neiSet)
 		{
 			unordered_set<int> nbrs;
@@ -2641,6 +2651,7 @@ double PathQueryHandler::clusteringCoeff(int uid, bool directed, const std::vect
 					nbrs.insert(getInVertID(neiNode, pred, k));
 				}
 			}
+			nbrs.erase(neiNode);
 			for (int outOutNode : nbrs)
 			{
 				if (neiSet.find(outOutNode) != neiSet.end())
@@ -2696,6 +2707,7 @@ double PathQueryHandler::clusteringCoeff(bool directed, const std::vector<int> &
 			}
 		}
 
+		neiSet.erase(curnode); // a loop is no side of a triangle
 		for (int neiNode : neiSet)
 		{
 			unordered_set<int> neighbors;
@@ -2712,6 +2724,7 @@ double PathQueryHandler::clusteringCoeff(bool directed, const std::vector<int> &
 					neighbors.insert(getInVertID(neiNode, pred, k));
 				}
 			}
+			neighbors.erase(neiNode);
 			for (int outOutNode : neighbors)
 			{
 				if (neiSet.find(outOutNode) != neiSet.end())
-- 
2.43.0


From c7946dfe292266f5d0203f85487076968a3505f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:06 +0000
Subject: [PATCH 072/107] fix: kHopReachable followed edges in the wrong
 direction and divided by zero

---
 Query/PathQueryHandler.cpp | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/Query/PathQueryHandler.cpp b/Query/PathQueryHandler.cpp
index 3cb14f4..b42a35d 100644
--- a/Query/PathQueryHandler.cpp
+++ b/Query/PathQueryHandler.cpp
@@ -1079,7 +1079,8 @@ bool PathQueryHandler::kHopReachable(int uid, int vid, bool directed, int k, con
 	queue<pair<int, int>> candidatePush2_next;
 	candidatePush1.push(pair<int, int>(uid, 0));
 	candidatePush2.push(pair<int, int>(vid, 0));
-	map<int, int> residue1, residue2, l1, l2, f1, f2;
+	map<int, double> residue1, residue2;
+	map<int, int> l1, l2, f1, f2;
 	residue1[uid] = 1;
 	residue2[vid] = 1;
 	l1[uid] = 0;
@@ -1122,7 +1123,7 @@ bool PathQueryHandler::kHopReachable(int uid, int vid, bool directed, int k, con
 			op_cnt++;
 			if (level <= k)
 			{
-				if (!directed)
+				if (directed)
 				{
 					if (residue1[curNode] / getSetOutSize(curNode, pred_set) >= rmax_fwd)
 					{
@@ -1243,7 +1244,7 @@ bool PathQueryHandler::kHopReachable(int uid, int vid, bool directed, int k, con
 				int num_in = getInSize(curNode, pred);
 				for (int i = 0; i < num_in; i++)
 				{
-					int adj = getOutVertID(curNode, pred, i);
+					int adj = getInVertID(curNode, pred, i);
 					if (f1.find(adj) == f1.end())
 					{
 						f1[adj] = fullL1;
@@ -1275,7 +1276,7 @@ bool PathQueryHandler::kHopReachable(int uid, int vid, bool directed, int k, con
 			op_cnt++;
 			if (level <= k)
 			{
-				if (!directed)
+				if (directed)
 				{
 					if (residue2[curNode] / getSetInSize(curNode, pred_set) >= rmax_bwd)
 					{
@@ -1292,8 +1293,8 @@ bool PathQueryHandler::kHopReachable(int uid, int vid, bool directed, int k, con
 										return true;
 									if (f1.find(adj) != f1.end() && f1[adj] + l2[adj] <= k)
 										return true;
-									residue2[adj] = (1 - alpha) * residue1[curNode] / getSetInSize(curNode, pred_set); // Should be equivalent to +=
-									if (residue2[adj] / getSetInSize(adj, pred_set) >= rmax_fwd)
+									residue2[adj] = (1 - alpha) * residue2[curNode] / getSetInSize(curNode, pred_set); // Should be equivalent to +=
+									if (residue2[adj] / getSetInSize(adj, pred_set) >= rmax_bwd)
 										candidatePush2.push(pair<int, int>(adj, level + 1));
 									else
 										candidatePush2_next.push(pair<int, int>(adj, level + 1));
@@ -1322,9 +1323,9 @@ bool PathQueryHandler::kHopReachable(int uid, int vid, bool directed, int k, con
 										return true;
 									if (f1.find(adj) != f1.end() && f1[adj] + l2[adj] <= k)
 										return true;
-									residue2[adj] = (1 - alpha) * residue1[curNode] /
+									residue2[adj] = (1 - alpha) * residue2[curNode] /
 													(getSetInSize(curNode, pred_set) + getSetOutSize(curNode, pred_set)); // Should be equivalent to +=
-									if (residue2[adj] / (getSetInSize(adj, pred_set) + getSetOutSize(adj, pred_set)) >= rmax_fwd)
+									if (residue2[adj] / (getSetInSize(adj, pred_set) + getSetOutSize(adj, pred_set)) >= rmax_bwd)
 										candidatePush2.push(pair<int, int>(adj, level + 1));
 									else
 										candidatePush2_next.push(pair<int, int>(adj, level + 1));
@@ -1342,9 +1343,9 @@ bool PathQueryHandler::kHopReachable(int uid, int vid, bool directed, int k, con
 										return true;
 									if (f1.find(adj) != f1.end() && f1[adj] + l2[adj] <= k)
 										return true;
-									residue2[adj] = (1 - alpha) * residue1[curNode] /
+									residue2[adj] = (1 - alpha) * residue2[curNode] /
 													(getSetInSize(curNode, pred_set) + getSetOutSize(curNode, pred_set)); // Should be equivalent to +=
-									if (residue2[adj] / (getSetInSize(adj, pred_set) + getSetOutSize(adj, pred_set)) >= rmax_fwd)
+									if (residue2[adj] / (getSetInSize(adj, pred_set) + getSetOutSize(adj, pred_set)) >= rmax_bwd)
 										candidatePush2.push(pair<int, int>(adj, level + 1));
 									else
 										candidatePush2_next.push(pair<int, int>(adj, level + 1));
@@ -1377,7 +1378,7 @@ bool PathQueryHandler::kHopReachable(int uid, int vid, bool directed, int k, con
 				int num_in = getInSize(curNode, pred);
 				for (int i = 0; i < num_in; i++)
 				{
-					int adj = getOutVertID(curNode, pred, i);
+					int adj = getInVertID(curNode, pred, i);
 					if (f2.find(adj) == f2.end())
 					{
 						f2[adj] = fullL2;
@@ -1385,7 +1386,7 @@ bool PathQueryHandler::kHopReachable(int uid, int vid, bool directed, int k, con
 							return true;
 						if (f1.find(adj) != f1.end() && f1[adj] + f2[adj] <= k)
 							return true;
-						fwdQ_next.push(adj);
+						bwdQ_next.push(adj);
 					}
 				}
 
@@ -1403,7 +1404,7 @@ bool PathQueryHandler::kHopReachable(int uid, int vid, bool directed, int k, con
 							return true;
 						if (f1.find(adj) != f1.end() && f1[adj] + f2[adj] <= k)
 							return true;
-						fwdQ_next.push(adj);
+						bwdQ_next.push(adj);
 					}
 				}
 			}
-- 
2.43.0


From 2dd68a7dafc401e323af09b18403f069aa611084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:51 +0000
Subject: [PATCH 073/107] fix: path functions of a database loaded with its CSR
 answered from before the updates

---
 Database/Database.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 18abdc0..acfee96 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -3270,6 +3270,7 @@ bool Database::sub2id_pre2id_obj2id_RDFintoSignature(const string _rdf_file, con
 
 bool Database::insertTriple(const TripleWithObjType &_triple, vector<unsigned> *_vertices, vector<unsigned> *_predicates, shared_ptr<Transaction> txn)
 {
+	this->csr = NULL; // no longer what is stored; not freed, queries running may still read it
 	// cout<<endl<<"the new triple is:"<<endl;
 	// cout<<_triple.subject<<endl;
 	// cout<<_triple.predicate<<endl;
@@ -3404,6 +3405,7 @@ bool Database::insertTriple(const TripleWithObjType &_triple, vector<unsigned> *
 
 bool Database::removeTriple(const TripleWithObjType &_triple, vector<unsigned> *_vertices, vector<unsigned> *_predicates, shared_ptr<Transaction> txn)
 {
+	this->csr = NULL; // no longer what is stored; not freed, queries running may still read it
 	TYPE_ENTITY_LITERAL_ID _sub_id = (this->kvstore)->getIDByEntity(_triple.subject);
 	TYPE_PREDICATE_ID _pre_id = (this->kvstore)->getIDByPredicate(_triple.predicate);
 	TYPE_ENTITY_LITERAL_ID _obj_id = INVALID_ENTITY_LITERAL_ID;
@@ -3943,6 +3945,7 @@ Database::batch_insert(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _tripl
 {
 	if (_triple_num == 0)
 		return 0;
+	this->csr = NULL; // no longer what is stored; not freed, queries running may still read it
 	TYPE_TRIPLE_NUM valid_num = 0;
 	vector<TYPE_ENTITY_LITERAL_ID> vertices, predicates;
 	unsigned update_num_s = 0;
@@ -4078,6 +4081,7 @@ Database::batch_remove(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _tripl
 {
 	if (_triple_num == 0)
 		return 0;
+	this->csr = NULL; // no longer what is stored; not freed, queries running may still read it
 	TYPE_TRIPLE_NUM valid_num = 0;
 	unsigned update_num_s = 0;
 	unsigned update_num_p = 0;
-- 
2.43.0


From 21f1ea6b60149b0456c4ddd2aabf76a7aa467660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:51 +0000
Subject: [PATCH 074/107] fix: answers of clusterCoeff for several vertices
 were not separated

---
 Query/GeneralEvaluation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index ce2cb27..962714f 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -3206,6 +3206,10 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 									else
 									{
 										auto ret = pqHandler->clusteringCoeff(uid, proj[i].path_args.directed, pred_id_set);
+										if (notFirstOutput)
+											ss << ",";
+										else
+											notFirstOutput = 1;
 										ss << "{\"src\":\"" << kvstore->getStringByID(uid) << "\",\"result\":";
 										ss << to_string(ret) << "}";
 									}
-- 
2.43.0


From fd23d0c48bf14033074b956399e23f5162980284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:04 +0000
Subject: [PATCH 075/107] fix: PPR indexed beyond its results when fewer than
 asked for, and answered beyond the hops asked for

---
 Query/PathQueryHandler.cpp | 60 ++++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 18 deletions(-)

diff --git a/Query/PathQueryHandler.cpp b/Query/PathQueryHandler.cpp
index b42a35d..edf54ad 100644
--- a/Query/PathQueryHandler.cpp
+++ b/Query/PathQueryHandler.cpp
@@ -5571,16 +5571,44 @@ void PathQueryHandler::SSPPR(int uid, int retNum, int k, const vector<int> &pred
 			delta = max(min_delta, delta / 2.0); // otherwise, reduce delta to delta/2
 	}
 
+	// Keep those within k hops
+	if (k != -1)
+	{
+		unordered_set<int> near;
+		vector<int> cur(1, uid), next;
+		near.insert(uid);
+		for (int level = 0; level < k && !cur.empty(); level++, cur.swap(next))
+		{
+			next.clear();
+			for (int v : cur)
+				for (int pred : pred_set)
+				{
+					int num_out = getOutSize(v, pred);
+					for (int i = 0; i < num_out; i++)
+					{
+						int adj = getOutVertID(v, pred, i);
+						if (near.insert(adj).second)
+							next.push_back(adj);
+					}
+				}
+		}
+		for (auto it = v2ppr.begin(); it != v2ppr.end();)
+		{
+			if (near.find(it->first) == near.end())
+				it = v2ppr.erase(it);
+			else
+				++it;
+		}
+	}
+
 	// Extract top-k results
 	topkV2ppr.clear();
-	topkV2ppr.resize(retNum);
+	topkV2ppr.resize(max(retNum, 0));
 	partial_sort_copy(v2ppr.begin(), v2ppr.end(), topkV2ppr.begin(), topkV2ppr.end(),
 					  [](pair<int, double> const &l, pair<int, double> const &r)
 					  { return l.second > r.second; });
-	size_t i = topkV2ppr.size() - 1;
-	while (topkV2ppr[i].second == 0)
-		i--;
-	topkV2ppr.erase(topkV2ppr.begin() + i + 1, topkV2ppr.end()); // Get rid of ppr = 0 entries
+	while (!topkV2ppr.empty() && topkV2ppr.back().second == 0)
+		topkV2ppr.pop_back(); // Get rid of ppr = 0 entries
 }
 
 void PathQueryHandler::compute_ppr_with_reserve(pair<iMap<double>, iMap<double>> &fwd_idx, unordered_map<int, double> &v2ppr)
@@ -5870,15 +5898,11 @@ inline int PathQueryHandler::random_walk(int start, double alpha, const vector<i
 
 double PathQueryHandler::kth_ppr(unordered_map<int, double> &v2ppr, int retNum)
 {
-	static vector<double> temp_ppr;
-	temp_ppr.clear();
-	temp_ppr.resize(v2ppr.size());
-	int i = 0;
+	if (retNum < 1 || (size_t)retNum > v2ppr.size())
+		return 0;
+	vector<double> temp_ppr;
 	for (auto it = v2ppr.begin(); it != v2ppr.end(); ++it)
-	{
-		temp_ppr[i] = v2ppr[it->second];
-		i++;
-	}
+		temp_ppr.push_back(it->second);
 	nth_element(temp_ppr.begin(), temp_ppr.begin() + retNum - 1, temp_ppr.end(),
 				[](double x, double y)
 				{ return x > y; });
@@ -5898,12 +5922,12 @@ bool PathQueryHandler::if_stop(int retNum, double delta, double threshold, doubl
 	const static double error_2 = 1.0 + epsilon;
 
 	vector<pair<int, double>> topk_pprs;
-	topk_pprs.clear();
-	topk_pprs.resize(retNum);
+	topk_pprs.resize(min((size_t)max(retNum, 0), (size_t)lower_bounds.occur.m_num));
+	if (topk_pprs.empty())
+		return false;
 	topk_filter.clean();
 
-	static vector<pair<int, double>> temp_bounds;
-	temp_bounds.clear();
+	vector<pair<int, double>> temp_bounds;
 	temp_bounds.resize(lower_bounds.occur.m_num);
 	int nodeid;
 	for (unsigned i = 0; i < lower_bounds.occur.m_num; i++)
@@ -5933,7 +5957,7 @@ bool PathQueryHandler::if_stop(int retNum, double delta, double threshold, doubl
 	}
 
 	// for remaining NO. retNum+1 to NO. n nodes, low-bound of retNum > the max upper-bound of remaining nodes
-	double low_bound_k = topk_pprs[retNum - 1].second;
+	double low_bound_k = topk_pprs.back().second;
 	if (low_bound_k <= delta)
 		return false;
 
-- 
2.43.0


From cfac31dcd62eb5be99b578ff5edf571a7385ea93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:12 +0000
Subject: [PATCH 076/107] fix: iri* missed literals, patterns of two constants
 or of one variable twice, and values bound by other results

---
 Query/GeneralEvaluation.cpp | 308 ++++++++++++------------------------
 Query/GeneralEvaluation.h   |   5 +-
 2 files changed, 102 insertions(+), 211 deletions(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 962714f..a5ef576 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -795,25 +795,10 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 			}
 			else
 			{
-				// PathQueryHandler function arguments are vertex IDs
-				// Use `tr` to store BFS starting vertices
 				TempResultSet *sub_result = new TempResultSet();
-				TempResult *tr = NULL;
-				if (result->results.size() > 0)
-				{
-					size_t j;
-					for (j = 0; j < result->results.size(); j++)
-					{
-						if (result->results[j].result.empty())
-							j++;
-						break;
-					}
-					if (j < result->results.size() && !result->results[j].result.empty())
-						tr = &(result->results[j]);
-				}
 
 				// BFS from the subjects / objects to find results
-				kleeneClosure(sub_result, tr, group_pattern.sub_group_pattern[i].pattern.subject.value, \
+				kleeneClosure(sub_result, result, group_pattern.sub_group_pattern[i].pattern.subject.value, \
 					group_pattern.sub_group_pattern[i].pattern.predicate.value, group_pattern.sub_group_pattern[i].pattern.object.value, dep);
 				
 				// TODO: cache result
@@ -1100,22 +1085,8 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 						{
 							TempResultSet *temp = new TempResultSet();
 
-							TempResult *tr = NULL;
-							if (sub_result->results.size() > 0)
-							{
-								size_t k;
-								for (k = 0; k < sub_result->results.size(); k++)
-								{
-									if (sub_result->results[k].result.empty())
-										k++;
-									break;
-								}
-								if (k < sub_result->results.size() && !sub_result->results[k].result.empty())
-									tr = &(sub_result->results[k]);
-							}
-
 							// BFS from the subjects / objects to find results
-							kleeneClosure(temp, tr, triple_pattern.sub_group_pattern[l].pattern.subject.value, \
+							kleeneClosure(temp, sub_result, triple_pattern.sub_group_pattern[l].pattern.subject.value, \
 								triple_pattern.sub_group_pattern[l].pattern.predicate.value, triple_pattern.sub_group_pattern[l].pattern.object.value, dep);
 							
 							// TODO: cache result
@@ -4136,205 +4107,123 @@ void GeneralEvaluation::addAllTriples(const GroupPattern &group_pattern)
 	}
 }
 
-// Input: tr; Output: temp
+// Collects the values of var in all the results; false if one of them leaves it unbound
+bool GeneralEvaluation::boundValues(TempResultSet *bound, const string &var, set<unsigned> &ids)
+{
+	for (TempResult &r : bound->results)
+	{
+		if (r.result.empty())
+			continue;
+		int id_pos = Varset(var).mapTo(r.id_varset)[0];
+		int str_pos = Varset(var).mapTo(r.str_varset)[0];
+		if (id_pos == -1 && str_pos == -1)
+			return false;
+		for (TempResult::ResultPair &row : r.result)
+		{
+			unsigned id = (id_pos != -1) ? row.id[id_pos] : kvstore->getIDByString(row.str[str_pos]);
+			if (id != INVALID)
+				ids.insert(id);
+			else if (id_pos != -1 || row.str[str_pos].empty())
+				return false;
+		}
+	}
+	return true;
+}
+
+// Input: bound (results of the patterns before this one); Output: temp
 // Assume space has been alloc'ed for temp
 // NOTE: ?s <p>* ?o has all the entities as result; <s> <p>* ?o has <s> as result.
-// Therefore, ?s <p>* ?o should never be the first to execute (unconstrained materialization)
-// Assume it is not the first in the following (does not handle the case where ?s <p>* ?o 
-// is the only triple pattern in the WHERE clause)
-void GeneralEvaluation::kleeneClosure(TempResultSet *temp, TempResult * const tr, \
+// Therefore, ?s <p>* ?o is evaluated from the values bound already, or failing that from all the entities and literals
+void GeneralEvaluation::kleeneClosure(TempResultSet *temp, TempResultSet *bound, \
 	const string &subject, const string &predicate, const string &object, int dep)
 {
 	cout << "kleeneClosure, subject = " << subject << ", predicate = " << predicate << ", object = " << object << endl;
-	// TempResult *tr = NULL;	// Use `tr` to store BFS starting vertices
-	// <s> <p>* ?o
-	TempResult *cand = NULL;
-	if (subject[0] != '?')
+	int pred = kvstore->getIDByPredicate(predicate);
+	bool var_sub = (subject[0] == '?'), var_obj = (object[0] == '?');
+
+	temp->results.push_back(TempResult());
+	if (!var_sub || !var_obj)
 	{
-		// if (tr) delete tr;
-		cand = new TempResult();
-		cand->id_varset = Varset(vector<string>(1, subject));
-		cand->result.emplace_back();
-		cand->result.back().id = new unsigned[1];
-		cand->result.back().id[0] = kvstore->getIDByString(subject);
-		cand->result.back().sz = 1;
+		// <s> <p>* ?o, ?s <p>* <o>, or <s> <p>* <o>
+		const string &constant = var_sub ? object : subject;
+		unsigned id = kvstore->getIDByString(constant);
+		temp->results[0].id_varset = Varset(vector<string>(1, var_sub ? subject : object));
+		if (id != INVALID)
+			BFS(temp, id, pred, !var_sub, 1);
+		if (!var_sub && !var_obj)
+		{
+			unsigned oid = kvstore->getIDByString(object);
+			bool holds = false;
+			for (auto &row : temp->results[0].result)
+				holds = holds || row.id[0] == oid;
+			temp->release();
+			temp->setConstant(holds);
+		}
+		return;
 	}
-	else if (object[0] != '?')
+
+	set<unsigned> sid_set, tid_set;
+	bool sub_bound = false, obj_bound = false;
+	vector<TempResultSet *> candidates(1, bound);
+	for (int i = dep - 1; i >= 0; i--)
+		candidates.push_back(rewriting_evaluation_stack[i].result);
+	for (TempResultSet *cand : candidates)
 	{
-		// if (tr) delete tr;
-		cand = new TempResult();
-		cand->id_varset = Varset(vector<string>(1, object));
-		cand->result.emplace_back();
-		cand->result.back().id = new unsigned[1];
-		cand->result.back().id[0] = kvstore->getIDByString(object);
-		cand->result.back().sz = 1;
+		bool has_row = false;
+		if (cand)
+			for (TempResult &r : cand->results)
+				has_row = has_row || !r.result.empty();
+		if (!has_row)
+			continue;
+		sub_bound = boundValues(cand, subject, sid_set);
+		obj_bound = boundValues(cand, object, tid_set);
+		break;
 	}
-	else
+	if (!sub_bound && !obj_bound)
 	{
-		if (tr) cand = tr;
-		else if (dep > 0)
-		{
-			int curDep = dep - 1;
-			while (curDep >= 0 && (!this->rewriting_evaluation_stack[curDep].result || \
-				this->rewriting_evaluation_stack[curDep].result->results.empty() ||
-				this->rewriting_evaluation_stack[curDep].result->results[0].result.size() == 0))
-				curDep--;
-			if (curDep >= 0)
-				cand = &(this->rewriting_evaluation_stack[curDep].result->results[0]);
-		}
+		sub_bound = true;
+		sid_set.clear();
+		for (TYPE_ENTITY_LITERAL_ID id = all_entity_id.init(); id != INVALID_ENTITY_LITERAL_ID; id = all_entity_id.next())
+			sid_set.insert(id);
+		for (TYPE_ENTITY_LITERAL_ID id = Util::LITERAL_FIRST_ID; id < Util::LITERAL_FIRST_ID + limitID_literal; id++)
+			if (!kvstore->getLiteralByID(id).empty())
+				sid_set.insert(id);
 	}
-	
-	temp->results.push_back(TempResult());
-	if (subject[0] != '?')
+
+	if (subject == object)	// Everything reaches itself
 	{
-		temp->results[0].id_varset = Varset(vector<string>(1, object));
-		for (size_t i = 0; i < cand->result.size(); i++)
+		temp->results[0].id_varset = Varset(vector<string>(1, subject));
+		for (auto id : sid_set)
 		{
-			unsigned tid = cand->result[i].id[0];
-			BFS(temp, tid, kvstore->getIDByPredicate(predicate), true, 1);
-			// vector<int> reach = pqHandler->BFS(tid, true,
-			// 	vector<int>(1, kvstore->getIDByPredicate(predicate)), false);
-			// for (int sid : reach)
-			// {
-			// 	temp->results[0].result.emplace_back();
-			// 	temp->results[0].result.back().id = new unsigned[1];
-			// 	temp->results[0].result.back().id[0] = sid;
-			// 	temp->results[0].result.back().sz = 1;
-			// }
+			temp->results[0].result.emplace_back();
+			temp->results[0].result.back().id = new unsigned[1];
+			temp->results[0].result.back().id[0] = id;
+			temp->results[0].result.back().sz = 1;
 		}
+		return;
 	}
-	else if (object[0] != '?')
+	vector<string> vars;
+	vars.push_back(subject);
+	vars.push_back(object);
+	temp->results[0].id_varset = Varset(vars);
+	if (sub_bound && (!obj_bound || sid_set.size() <= tid_set.size()))
 	{
-		temp->results[0].id_varset = Varset(vector<string>(1, subject));
-		for (size_t i = 0; i < cand->result.size(); i++)
-		{
-			unsigned sid = cand->result[i].id[0];
-			BFS(temp, sid, kvstore->getIDByPredicate(predicate), false, 1);
-			// vector<int> reach = pqHandler->BFS(sid, true,
-			// 	vector<int>(1, kvstore->getIDByPredicate(predicate)), true);
-			// for (int tid : reach)
-			// {
-			// 	temp->results[0].result.emplace_back();
-			// 	temp->results[0].result.back().id = new unsigned[1];
-			// 	temp->results[0].result.back().id[0] = tid;
-			// 	temp->results[0].result.back().sz = 1;
-			// }
-		}
+		for (auto sid : sid_set)
+			BFS(temp, sid, pred, true, 2);
 	}
 	else
 	{
-		vector<string> vars;
-		vars.push_back(subject);
-		vars.push_back(object);
-		temp->results[0].id_varset = Varset(vars);
-		
-		set<unsigned> sid_set, tid_set;
-		if (!cand || cand->result.size() == 0)
-		{
-			// // cout << "[ERROR]	Cannot process ?s <p>* ?o as the only graph pattern in WHERE clause. (1)" << endl;
-			// all entity -> sid_set/tid_set 
-			for(TYPE_ENTITY_LITERAL_ID id = all_entity_id.init(); id!=INVALID_ENTITY_LITERAL_ID; id=all_entity_id.next())
-				sid_set.insert(id);
-			// tid_set = sid_set;
-		}
-		else{
-			unsigned subjectIdx = 0, objectIdx = 0;
-			bool subjectInId = true, objectInId = true, not_case2 = true;
-			while (subjectIdx < cand->id_varset.vars.size() && cand->id_varset.vars[subjectIdx] != subject)
-				subjectIdx++;
-			while (objectIdx < cand->id_varset.vars.size() && cand->id_varset.vars[objectIdx] != object)
-				objectIdx++;
-			if (subjectIdx == cand->id_varset.vars.size() && objectIdx == cand->id_varset.vars.size())
-			{
-				subjectIdx = 0;
-				objectIdx = 0;
-				while (subjectIdx < cand->str_varset.vars.size() && cand->str_varset.vars[subjectIdx] != subject)
-					subjectIdx++;
-				while (objectIdx < cand->str_varset.vars.size() && cand->str_varset.vars[objectIdx] != object)
-					objectIdx++;
-				if (subjectIdx < cand->str_varset.vars.size())
-					subjectInId = false;
-				else if (objectIdx < cand->str_varset.vars.size())
-					objectInId = false;
-				else{
-					not_case2 = false;
-					// // cout << "[ERROR]	Cannot process ?s <p>* ?o as the only graph pattern in WHERE clause. (2)" << endl;
-					// all entity -> sid_set/tid_set 
-					for(TYPE_ENTITY_LITERAL_ID id = all_entity_id.init(); id!=INVALID_ENTITY_LITERAL_ID; id=all_entity_id.next())
-						sid_set.insert(id);
-					// tid_set = sid_set; 
-				}
-			}
-			if(not_case2){
-				if (subjectInId && subjectIdx < cand->id_varset.vars.size())
-				{
-					for (size_t i = 0; i < cand->result.size(); i++)
-						sid_set.insert(cand->result[i].id[subjectIdx]);
-				}
-				else if (subjectIdx < cand->str_varset.vars.size())
-				{
-					for (size_t i = 0; i < cand->result.size(); i++)
-						sid_set.insert(kvstore->getIDByString(cand->result[i].str[subjectIdx]));
-				}
-				if (objectInId && objectIdx < cand->id_varset.vars.size())
-				{
-					for (size_t i = 0; i < cand->result.size(); i++)
-						tid_set.insert(cand->result[i].id[objectIdx]);
-				}
-				else if (objectIdx < cand->str_varset.vars.size())
-				{
-					for (size_t i = 0; i < cand->result.size(); i++)
-						tid_set.insert(kvstore->getIDByString(cand->result[i].str[objectIdx]));
-				}
-			}
-		}
-		if (sid_set.size() > 0 && (sid_set.size() <= tid_set.size() || tid_set.size() == 0))
-		{
-			for (auto sid : sid_set)
-				BFS(temp, sid, kvstore->getIDByPredicate(predicate), true, 2);
-			// for (size_t i = 0; i < tr->result.size(); i++)
-			// {
-			// 	unsigned sid = tr->result[i].id[subjectIdx];
-			// 	// cout << "sid = " << sid << endl;
-			// 	vector<int> reach = pqHandler->BFS(sid, true,
-			// 		vector<int>(1, kvstore->getIDByPredicate(predicate)), true);
-			// 	for (int tid : reach)
-			// 	{
-			// 		temp->results[0].result.emplace_back();
-			// 		temp->results[0].result.back().id = new unsigned[2];
-			// 		temp->results[0].result.back().id[0] = sid;
-			// 		temp->results[0].result.back().id[1] = tid;
-			// 		temp->results[0].result.back().sz = 2;
-			// 	}
-			// }
-		}
-		else if (tid_set.size() > 0 && (tid_set.size() <= sid_set.size() || sid_set.size() == 0))
-		{
-			for (auto tid : tid_set)
-				BFS(temp, tid, kvstore->getIDByPredicate(predicate), false, 2);
-			// {
-			// 	vector<int> reach = pqHandler->BFS(tid, true,
-			// 		vector<int>(1, kvstore->getIDByPredicate(predicate)), false);
-			// 	for (int sid : reach)
-			// 	{
-			// 		temp->results[0].result.emplace_back();
-			// 		temp->results[0].result.back().id = new unsigned[2];
-			// 		temp->results[0].result.back().id[0] = sid;
-			// 		temp->results[0].result.back().id[1] = tid;
-			// 		temp->results[0].result.back().sz = 2;
-			// 	}
-			// }
-		}
-		else
-			cout << "[ERROR]	Cannot process ?s <p>* ?o as the only graph pattern in WHERE clause. (3)" << endl;
+		for (auto tid : tid_set)
+			BFS(temp, tid, pred, false, 2);
 	}
 }
 
-void GeneralEvaluation::BFS(TempResultSet *temp, int sid, int pred, bool forward, int numCol)
+void GeneralEvaluation::BFS(TempResultSet *temp, unsigned sid, int pred, bool forward, int numCol)
 {
 	queue<unsigned> ret;
-	unordered_set<int> ret_set;
-	ret.push(sid);
+	unordered_set<unsigned> ret_set;
+	if (!forward || sid < Util::LITERAL_FIRST_ID)
+		ret.push(sid);
 	ret_set.insert(sid);
 	unsigned curr;
 	temp->results[0].result.emplace_back();
@@ -4362,13 +4251,12 @@ void GeneralEvaluation::BFS(TempResultSet *temp, int sid, int pred, bool forward
 			kvstore->getobjIDlistBysubIDpreID(curr, pred, outList, outSz); 
 			for(unsigned i = 0; i < outSz; i++)
 			{
-				if(outList[i] >= Util::LITERAL_FIRST_ID)
-					continue;
 				outNei = outList[i];
 				// cout << "outNei = " << outNei << endl;
 				if (ret_set.find(outNei) == ret_set.end())
 				{
-					ret.push(outNei);
+					if (outNei < Util::LITERAL_FIRST_ID)	// a literal has no edges to go on
+						ret.push(outNei);
 					ret_set.insert(outNei);
 					temp->results[0].result.emplace_back();
 					if (numCol == 1)
@@ -4386,6 +4274,7 @@ void GeneralEvaluation::BFS(TempResultSet *temp, int sid, int pred, bool forward
 					}
 				}
 			}
+			delete[] outList;
 		}
 		else
 		{
@@ -4418,6 +4307,7 @@ void GeneralEvaluation::BFS(TempResultSet *temp, int sid, int pred, bool forward
 					}
 				}
 			}
+			delete[] inList;
 		}
 	}
 }
diff --git a/Query/GeneralEvaluation.h b/Query/GeneralEvaluation.h
index 34c3b78..aab8cf2 100644
--- a/Query/GeneralEvaluation.h
+++ b/Query/GeneralEvaluation.h
@@ -155,8 +155,9 @@ class GeneralEvaluation
 		void copyBgpResult2TempResult(std::shared_ptr<BGPQuery> bgp_query, int varnum, TempResult &tr);
 		std::map<std::string, std::string> dynamicFunction(const std::vector<int> &iri_set, bool directed, int k, const std::vector<int> &pred_set, const std::string& fun_name, const std::string& username);
 
-		void kleeneClosure(TempResultSet *temp, TempResult * const tr, const string &subject, const string &predicate, const string &object, int dep);
-		void BFS(TempResultSet *temp, int sid, int pred, bool forward, int numCol=2);
+		bool boundValues(TempResultSet *bound, const string &var, set<unsigned> &ids);
+		void kleeneClosure(TempResultSet *temp, TempResultSet *bound, const string &subject, const string &predicate, const string &object, int dep);
+		void BFS(TempResultSet *temp, unsigned sid, int pred, bool forward, int numCol=2);
 };
 
 #endif // _QUERY_GENERALEVALUATION_H
-- 
2.43.0


From 0d1b7e80dc3d142e0bc5a597761ff21de0bf84d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:38 +0000
Subject: [PATCH 077/107] fix: a backup of a loaded database missed the updates
 not saved yet

---
 Database/Database.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index acfee96..a5fe79c 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -4407,6 +4407,10 @@ bool Database::backup()
 
 	cout << "Beginning backup, path is: "<< backup_path << endl;
 
+	// What is copied are the files, which updates since the last save have not reached yet
+	if (this->if_loaded)
+		this->save();
+
 	string sys_cmd;
 	if (Util::dir_exist(backup_path))
 	{
-- 
2.43.0


From eb9f3312684de6ad32492566879eb7fd38a7cfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:08 +0000
Subject: [PATCH 078/107] fix: counting the lines of a file freed an array
 wrongly and overran its buffers

---
 Util/Util.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/Util/Util.cpp b/Util/Util.cpp
index f6087ce..d576fa1 100644
--- a/Util/Util.cpp
+++ b/Util/Util.cpp
@@ -947,13 +947,11 @@ Util::count_lines(const std::string _file, unsigned int _mode)
     {
         std::string cmd = "wc -l " + _file + " | awk '{print $1}'";
         // cout << "count by cmd: " << cmd << endl;
-        char _cmd[1024] = {0};
-        strcpy(_cmd, cmd.c_str());
         FILE *ptr;
-        if ((ptr = popen(_cmd, "r")) != NULL)
+        if ((ptr = popen(cmd.c_str(), "r")) != NULL)
         {
             char buf[64];
-            char *rt = new char[128]{0};
+            char *rt = new char[192]{0};
             while (fgets(buf, 64, ptr) != NULL)
             {
                 strcat(rt, buf);
@@ -965,7 +963,7 @@ Util::count_lines(const std::string _file, unsigned int _mode)
             pclose(ptr);
             ptr = NULL;
             count = atol(rt);
-            delete rt;
+            delete[] rt;
         }
     }
     else
-- 
2.43.0


From ee596860be50bbb33dc913190ed8330d3f70d2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:08 +0000
Subject: [PATCH 079/107] fix: directories were created with decimal mode 755,
 unreadable to their owner

---
 Util/Util.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Util/Util.cpp b/Util/Util.cpp
index d576fa1..b27c45a 100644
--- a/Util/Util.cpp
+++ b/Util/Util.cpp
@@ -909,22 +909,22 @@ Util::create_dirs(const string _dirs)
 {
     if (! Util::dir_exist(_dirs))
     {
-        char tmpDirPath[255] = {0};
+        string tmpDirPath;
         size_t len = _dirs.length();
         for (size_t i = 0; i < len; i++)
         {
-            tmpDirPath[i] = _dirs[i];
+            tmpDirPath.push_back(_dirs[i]);
             if (tmpDirPath[i] == '/')
             {
-                if (access(tmpDirPath, 0) != 0)
+                if (access(tmpDirPath.c_str(), 0) != 0)
                 {
-                    mkdir(tmpDirPath, 755);
+                    mkdir(tmpDirPath.c_str(), 0755);
                 }
             }
         }
-        if (access(tmpDirPath, 0) != 0)
+        if (access(tmpDirPath.c_str(), 0) != 0)
         {
-            mkdir(tmpDirPath, 755);
+            mkdir(tmpDirPath.c_str(), 0755);
         }
         return true;
     }
-- 
2.43.0


From 946e52a73e40ffd304d63950416c9b2236f1ad21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:19 +0000
Subject: [PATCH 080/107] fix: restoring from a path of another database
 destroyed the database

---
 Main/gconsole.cpp |  8 +++++++-
 Main/ghttp.cpp    |  8 +++++++-
 Main/grestore.cpp |  7 ++++++-
 Main/grpc.cpp     |  8 +++++++-
 Util/Util.cpp     | 18 ++++++++----------
 5 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/Main/gconsole.cpp b/Main/gconsole.cpp
index 1768013..54ac8ce 100644
--- a/Main/gconsole.cpp
+++ b/Main/gconsole.cpp
@@ -2239,6 +2239,13 @@ int restore_handler(const vector<string> &args)
 		return 0;
 	}
 
+	string folder_name = Util::get_folder_name(backup_path, db_name);
+	if (folder_name.empty())
+	{
+		cout << "Backup Path Does not Match DataBase Name, Restore Failed" << endl;
+		return 0;
+	}
+
 	string sparql = "ASK WHERE{<" + db_name + "> <database_status> \"already_built\".}";
 	ResultSet ask_rs;
 	silence_sysdb_query(sparql, ask_rs);
@@ -2288,7 +2295,6 @@ int restore_handler(const vector<string> &args)
 		return -1;
 	}
 
-	string folder_name = Util::get_folder_name(backup_path, db_name);
 	// {
 	// 	size_t idx = backup_path.find_last_of('/');
 	// 	path = backup_path.substr(idx + 1);
diff --git a/Main/ghttp.cpp b/Main/ghttp.cpp
index 762591e..fdbd966 100644
--- a/Main/ghttp.cpp
+++ b/Main/ghttp.cpp
@@ -1966,6 +1966,13 @@ void restore_thread_new(const shared_ptr<HttpServer::Request> &request, const sh
 			sendResponseMsg(1003, error, operation, request, response);
 			return;
 		}
+		string folder_name = Util::get_folder_name(path, db_name);
+		if (folder_name.empty())
+		{
+			error = "Backup path does not match database name, restore failed";
+			sendResponseMsg(1003, error, operation, request, response);
+			return;
+		}
 		// check load status: need unload if already load
 		if (apiUtil->check_already_load(db_name))
 		{
@@ -2029,7 +2036,6 @@ void restore_thread_new(const shared_ptr<HttpServer::Request> &request, const sh
 			string db_path = _db_home + "/" + db_name + _db_suffix;
 			Util::remove_path(db_path);
 			// mv backup folder to database folder
-			string folder_name = Util::get_folder_name(path, db_name);
 			string sys_cmd = "mv " + _db_home + "/" + folder_name + " " + db_path;
 			std::system(sys_cmd.c_str());
 			apiUtil->unlock_databaseinfo(db_info);
diff --git a/Main/grestore.cpp b/Main/grestore.cpp
index 78c14e1..a07ef98 100644
--- a/Main/grestore.cpp
+++ b/Main/grestore.cpp
@@ -121,6 +121,12 @@ main(int argc, char * argv[])
 			cout << "the backup path error, restore failed." << endl;
 			return 0;
 		}
+		string folder_name = Util::get_folder_name(backup_path, db_name);
+		if (folder_name.empty())
+		{
+			cout << "Backup Path Does not Match DataBase Name, Restore Failed" << endl;
+			return 0;
+		}
 		//system.db
 		Database system_db("system");
 		system_db.load();
@@ -167,7 +173,6 @@ main(int argc, char * argv[])
 		db_path = _db_home + "/" + db_name + _db_suffix;
 		Util::remove_path(db_path);
 
-		string folder_name = Util::get_folder_name(backup_path, db_name);
 		string sys_cmd = "mv " + _db_home + "/" + folder_name + ' ' + db_path;
 		system(sys_cmd.c_str());
 
diff --git a/Main/grpc.cpp b/Main/grpc.cpp
index 50b3366..f2ee91f 100644
--- a/Main/grpc.cpp
+++ b/Main/grpc.cpp
@@ -1904,6 +1904,13 @@ try
 			response->Error(StatusParamIsIllegal, error);
 			return;
 		}
+		string folder_name = Util::get_folder_name(path, db_name);
+		if (folder_name.empty())
+		{
+			error = "Backup path does not match database name, restore failed";
+			response->Error(StatusParamIsIllegal, error);
+			return;
+		}
 		// check load status: need unload if already load
 		if (apiUtil->check_already_load(db_name))
 		{
@@ -1966,7 +1973,6 @@ try
 			string db_path = _db_home + "/" + db_name + _db_suffix;
 			Util::remove_path(db_path);
 			// mv backup folder to database folder
-			string folder_name = Util::get_folder_name(path, db_name);
 			string sys_cmd = "mv " + _db_home + "/" + folder_name + " " + db_path;
 			std::system(sys_cmd.c_str());
 			apiUtil->unlock_databaseinfo(db_info);
diff --git a/Util/Util.cpp b/Util/Util.cpp
index b27c45a..95c3d57 100644
--- a/Util/Util.cpp
+++ b/Util/Util.cpp
@@ -1181,12 +1181,9 @@ string
 Util::get_backup_time(const string path, const string db_name)
 {
     string _db_name = db_name + Util::getConfigureValue("db_suffix");
-    string::size_type position;
-    position = path.find(_db_name);
-
-    if(position == path.npos)
+    string db_folder = Util::get_folder_name(path, db_name);
+    if (db_folder.length() < _db_name.length() + 13)
         return "";
-    string db_folder = path.substr(position, path.length());
     string timestamp = db_folder.substr(_db_name.length() + 1, db_folder.length());
     string year, month, day, hour, minute, second;
     year = "20" + timestamp.substr(0, 2);
@@ -1201,11 +1198,12 @@ Util::get_backup_time(const string path, const string db_name)
 
 string
 Util::get_folder_name(const string path, const string db_name){
-    string _db_name = db_name + ".db";
-    string::size_type position;
-    position = path.find(_db_name);
-
-    string db_folder = path.substr(position, path.length());
+    // the last component of the path, which must be <db_name>.db_<timestamp>; otherwise empty
+    string prefix = db_name + Util::getConfigureValue("db_suffix") + "_";
+    string::size_type position = path.find_last_of('/');
+    string db_folder = position == path.npos ? path : path.substr(position + 1);
+    if (db_folder.compare(0, prefix.length(), prefix) != 0)
+        return "";
     return db_folder;
 }
 
-- 
2.43.0


From a8b7e33d0a9873602123dbea3f3d46957610bb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:50 +0000
Subject: [PATCH 081/107] fix: a query file with a line of 9999 characters was
 read forever, an empty one as a query

---
 Util/Util.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/Util/Util.cpp b/Util/Util.cpp
index 95c3d57..20e5d58 100644
--- a/Util/Util.cpp
+++ b/Util/Util.cpp
@@ -1369,8 +1369,7 @@ Util::getQueryFromFile(const char* _file_path)
 #ifdef DEBUG_PRECISE
     cerr << "file to open: " << _file_path <<endl;
 #endif
-    char buf[10000];
-    std::string query_file;
+    std::string buf;
 
     ifstream fin(_file_path);
     if(!fin)
@@ -1379,11 +1378,9 @@ Util::getQueryFromFile(const char* _file_path)
         return "";
     }
 
-    memset(buf, 0, sizeof(buf));
     stringstream _ss;
-    while(!fin.eof())
+    while(std::getline(fin, buf))
     {
-        fin.getline(buf, 9999);
         _ss << buf << "\n";
     }
     fin.close();
-- 
2.43.0


From 1763e760e9bddf5ffd3d51be290ac482833df236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:13 +0000
Subject: [PATCH 082/107] fix: gquery ended by an exception on a query it does
 not accept, and reported other failures as success

---
 Main/gquery.cpp | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/Main/gquery.cpp b/Main/gquery.cpp
index f95c6a4..90a6068 100644
--- a/Main/gquery.cpp
+++ b/Main/gquery.cpp
@@ -16,6 +16,24 @@ using namespace std;
 
 // WARN:cannot support soft links!
 
+// a query that is not accepted ends with an exception: it fails like any other
+static int run_query(Database &_db, const string &query, ResultSet &_rs, FILE *ofp, bool export_flag)
+{
+	try
+	{
+		return _db.query(query, _rs, ofp, true, export_flag, nullptr);
+	}
+	catch (const std::exception &e)
+	{
+		cout << e.what() << endl;
+	}
+	catch (const char *e)
+	{
+		cout << e << endl;
+	}
+	return -101;
+}
+
 int main(int argc, char *argv[])
 {
 	// chdir(dirname(argv[0]));
@@ -138,7 +156,7 @@ int main(int argc, char *argv[])
 				string msg;
 				shared_ptr<Transaction> ptxn = make_shared<Transaction>(db_folder, 1, 1);
 				// cout << ptxn << endl;
-				int ret = _db.query(query, _rs, ofp, true, export_flag, nullptr);
+				int ret = run_query(_db, query, _rs, ofp, export_flag);
 				if (resultfile.empty() == false)
 				{
 					fclose(ofp);
@@ -167,6 +185,12 @@ int main(int argc, char *argv[])
 					}
 				}
 
+				if (ret < 0 && ret != -100)
+				{
+					cout << msg << endl;
+					return 0;
+				}
+
 				long tv_end = Util::get_cur_time();
 				// stringstream ss;
 				cout << "query database successfully, Used " << (tv_end - tv_begin) << " ms" << endl;
@@ -194,8 +218,8 @@ int main(int argc, char *argv[])
 			while (true)
 			{
 				buf = readline(prompt);
-				if (buf == NULL)
-					continue;
+				if (buf == NULL) // end of input
+					break;
 				else
 					add_history(buf);
 				if (strncmp(buf, "help", 4) == 0)
@@ -294,7 +318,7 @@ int main(int argc, char *argv[])
 				ResultSet _rs;
 				_rs.setUsername(_root_username);
 				// shared_ptr<Transaction> ptxn = make_shared<Transaction>(db_folder, 1, 1);
-				int ret = _db.query(query, _rs, fp, true, false, nullptr);
+				int ret = run_query(_db, query, _rs, fp, false);
 				// int ret = _db.query(query, _rs, NULL);
 				string msg;
 
-- 
2.43.0


From 8201e7c68b2714c0e27eb2b692b1404a312ab430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:21 +0000
Subject: [PATCH 083/107] fix: updates wrote counts and statistics to disk
 before the triples they count were saved

---
 Database/Database.cpp | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index a5fe79c..4e84930 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -1953,11 +1953,6 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 		{
 			this->query_cache->clear();
 			cout << "QueryCache cleared" << endl;
-			if (general_evaluation.getQueryTree().getUpdateType() != QueryTree::Not_Update)
-			{
-				this->saveStatisticsInfoFile();
-				this->saveDBInfoFile();
-			}
 		}
 		if (txn == nullptr)
 			pthread_rwlock_unlock(&(this->update_lock));
@@ -3875,7 +3870,6 @@ Database::batch_insert(std::string _rdf_file, bool _is_restore, shared_ptr<Trans
 
 	delete[] triple_array;
 	triple_array = NULL;
-	this->saveStatisticsInfoFile();
 	long tv_insert = Util::get_cur_time();
 	cout << "after batch insert, used " << (tv_insert - tv_load) << "ms." << endl;
 
@@ -3926,7 +3920,6 @@ Database::batch_remove(std::string _rdf_file, bool _is_restore, shared_ptr<Trans
 
 	delete[] triple_array;
 	triple_array = NULL;
-	this->saveStatisticsInfoFile();
 	long tv_remove = Util::get_cur_time();
 	cout << "after batch remove, used " << (tv_remove - tv_load) << "ms." << endl;
 	cout << "remove rdf triples done." << endl;
-- 
2.43.0


From ef210aa1edda3d1735a72fae10a4566bdc687e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:27 +0000
Subject: [PATCH 084/107] fix: updates rewrote the string index of the saved
 database in place

---
 StringIndex/StringIndex.cpp | 34 +++++++++++++++++++---------------
 StringIndex/StringIndex.h   | 10 +++++++++-
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/StringIndex/StringIndex.cpp b/StringIndex/StringIndex.cpp
index fcb264f..0ff497e 100644
--- a/StringIndex/StringIndex.cpp
+++ b/StringIndex/StringIndex.cpp
@@ -271,16 +271,9 @@ void StringIndexFile::change(unsigned id, KVstore &kv_store)
 		while (this->num <= id)
 		{
 			(*this->index_table).push_back(IndexInfo());
-
-			fseek(this->index_file, sizeof(unsigned) + this->num * (sizeof(long) + sizeof(unsigned)), SEEK_SET);
-			fwrite(&(*this->index_table)[this->num].offset, sizeof(long), 1, this->index_file);
-			fwrite(&(*this->index_table)[this->num].length, sizeof(unsigned), 1, this->index_file);
-
+			this->changed.insert(this->num);
 			this->num++;
 		}
-
-		fseek(this->index_file, 0, SEEK_SET);
-		fwrite(&this->num, sizeof(unsigned), 1, this->index_file);
 	}
 
 	string str;
@@ -295,13 +288,10 @@ void StringIndexFile::change(unsigned id, KVstore &kv_store)
 	(*this->index_table)[id].length = str.length();
 	this->empty_offset += (*this->index_table)[id].length;
 
-	fseek(this->index_file, sizeof(unsigned) + id * (sizeof(long) + sizeof(unsigned)), SEEK_SET);
-	fwrite(&(*this->index_table)[id].offset, sizeof(long), 1, this->index_file);
-	fwrite(&(*this->index_table)[id].length, sizeof(unsigned), 1, this->index_file);
+	this->changed.insert(id);
 
 	fseek(this->value_file, (*this->index_table)[id].offset, SEEK_SET);
 	fwrite(str.c_str(), sizeof(char), (*this->index_table)[id].length, this->value_file);
-    fflush(this->index_file);
 	fflush(this->value_file);
 	//if(id == 9)
 	//{
@@ -318,10 +308,24 @@ void StringIndexFile::disable(unsigned id)
 	if (id >= this->num)	return;
 
 	(*this->index_table)[id] = IndexInfo();
+	this->changed.insert(id);
+}
+
+void StringIndexFile::flush()
+{
+	if (this->index_file == NULL || this->changed.empty())
+		return;
 
-	fseek(this->index_file, sizeof(unsigned) + id * (sizeof(long) + sizeof(unsigned)), SEEK_SET);
-	fwrite(&(*this->index_table)[id].offset, sizeof(long), 1, this->index_file);
-	fwrite(&(*this->index_table)[id].length, sizeof(unsigned), 1, this->index_file);
+	fseek(this->index_file, 0, SEEK_SET);
+	fwrite(&this->num, sizeof(unsigned), 1, this->index_file);
+	for (unsigned id : this->changed)
+	{
+		fseek(this->index_file, sizeof(unsigned) + id * (sizeof(long) + sizeof(unsigned)), SEEK_SET);
+		fwrite(&(*this->index_table)[id].offset, sizeof(long), 1, this->index_file);
+		fwrite(&(*this->index_table)[id].length, sizeof(unsigned), 1, this->index_file);
+	}
+	fflush(this->index_file);
+	this->changed.clear();
 }
 
 //----------------------------------------------------------------------------------------------------------------------------------------------------
diff --git a/StringIndex/StringIndex.h b/StringIndex/StringIndex.h
index 84ee874..ace20a3 100644
--- a/StringIndex/StringIndex.h
+++ b/StringIndex/StringIndex.h
@@ -37,6 +37,8 @@ class StringIndexFile
 				IndexInfo(long _offset = 0, unsigned _length = 0):offset(_offset), length(_length){}
 		};
 		std::vector<IndexInfo>* index_table;
+		// entries changed since the last flush: the index file is what was saved, and must not change before the next save
+		std::set<unsigned> changed;
 		// unsigned buffer_size;
 		// char *buffer;
 		// char *UncompressBuffer;
@@ -73,6 +75,7 @@ class StringIndexFile
 		}
 		~StringIndexFile()
 		{
+			this->flush();
 			if (this->index_file != NULL)
 				fclose(this->index_file);
 			if (this->value_file != NULL)
@@ -97,6 +100,7 @@ class StringIndexFile
 		unsigned getNum();
 		void save(KVstore &kv_store);
 		void load();
+		void flush();
 		inline void allocBuffer(char* &buffer, unsigned &buffer_size, unsigned length)
 		{
 			if (buffer_size <= length)
@@ -157,7 +161,11 @@ class StringIndex
 
 		void flush()
 		{
-			//nothing to do here
+			latch.lockExclusive();
+			this->entity.flush();
+			this->literal.flush();
+			this->predicate.flush();
+			latch.unlock();
 		}
 
 		// void emptyBuffer()
-- 
2.43.0


From bde461cba240d241493522cbf9fcc7511215796f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:31 +0000
Subject: [PATCH 085/107] fix: results took the value of a variable that no
 pattern binds from before the row

---
 Query/GeneralEvaluation.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index a5ef576..e169c98 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -2285,6 +2285,8 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 
 				for (int i = 0; i < (int)proj.size(); i++)
 				{
+					if (proj[i].aggregate_type == ProjectionVar::None_type && proj2temp[i] < 0)
+						continue;	// not bound by any pattern
 					if (proj[i].aggregate_type == ProjectionVar::None_type)
 					{
 						if (group2temp.empty()) {
@@ -2718,8 +2720,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 						{
 							bool row_valid = true;
 							for (size_t k = 0; k < vars2temp.size(); k++)
-								if ((proj[i].path_args.vert_set[k][0] != '?' && vars2temp[k] == -1) \
-									|| vars2temp[k] >= result0_id_cols || result0.result[j].id[vars2temp[k]] == INVALID)
+								if (vars2temp[k] == -1 || vars2temp[k] >= result0_id_cols || result0.result[j].id[vars2temp[k]] == INVALID)
 								{
 									row_valid = false;
 									break;
-- 
2.43.0


From ee29e6ac85a1f79855c35a2cbb243b5ea7d17301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:02 +0000
Subject: [PATCH 086/107] fix: a path function of a variable that no pattern
 binds read before the row

---
 Query/GeneralEvaluation.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index e169c98..9bcc506 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -2535,7 +2535,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 						if (proj[i].path_args.src[0] == '?')	// src is a variable
 						{
 							int var2temp = Varset(proj[i].path_args.src).mapTo(result0.getAllVarset())[0];
-							if (var2temp >= result0_id_cols)
+							if (var2temp < 0 || var2temp >= result0_id_cols)
 								cout << "[ERROR] src must be an entity!" << endl;	// TODO: throw exception
 							else
 							{
@@ -2556,7 +2556,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 						{
 							int var2temp = Varset(proj[i].path_args.dst).mapTo(result0.getAllVarset())[0];
 							cout << "vid var2temp = " << var2temp << endl;
-							if (var2temp >= result0_id_cols)
+							if (var2temp < 0 || var2temp >= result0_id_cols)
 								cout << "[ERROR] dst must be an entity!" << endl;	// TODO: throw exception
 							else
 							{
@@ -2744,7 +2744,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 							if (proj[i].path_args.src[0] == '?')	// src is a variable
 							{
 								int var2temp = Varset(proj[i].path_args.src).mapTo(result0.getAllVarset())[0];
-								if (var2temp >= result0_id_cols)
+								if (var2temp < 0 || var2temp >= result0_id_cols)
 									cout << "[ERROR] src must be an entity!" << endl;	// TODO: throw exception
 								else
 								{
@@ -2772,7 +2772,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 							{
 								int var2temp = Varset(proj[i].path_args.dst).mapTo(result0.getAllVarset())[0];
 								cout << "vid var2temp = " << var2temp << endl;
-								if (var2temp >= result0_id_cols)
+								if (var2temp < 0 || var2temp >= result0_id_cols)
 									cout << "[ERROR] dst must be an entity!" << endl;	// TODO: throw exception
 								else
 								{
-- 
2.43.0


From 03f6242b8040ee7363b2ad75d7cd9581ee06577c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:02 +0000
Subject: [PATCH 087/107] fix: a deeply nested query exhausted the stack

---
 Parser/QueryParser.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index 978a8c9..f3bd52a 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -26,6 +26,8 @@ void SPARQLErrorListener::syntaxError(antlr4::Recognizer *recognizer, antlr4::To
 
 	@param query the query string.
 */
+static const int MAX_NESTING = 256;
+
 void QueryParser::SPARQLParse(const string &query)
 {
 	try{
@@ -39,6 +41,20 @@ void QueryParser::SPARQLParse(const string &query)
 	lexer.addErrorListener(&lstnr);
 
 	antlr4::CommonTokenStream tokens(&lexer);
+	// The parser and the evaluation recurse: nesting without end would exhaust the stack
+	tokens.fill();
+	int depth = 0;
+	for (antlr4::Token *token : tokens.getTokens())
+	{
+		string text = token->getText();
+		if (text == "(" || text == "{" || text == "[")
+		{
+			if (++depth > MAX_NESTING)
+				throw runtime_error("[ERROR]	The query is nested too deeply.");
+		}
+		else if (text == ")" || text == "}" || text == "]")
+			depth--;
+	}
 	SPARQLParser parser(&tokens);
 	parser.removeErrorListeners();
 	parser.addErrorListener(&lstnr);
-- 
2.43.0


From 58b74be837df1f931a206d988075c2350d88951f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:02 +0000
Subject: [PATCH 088/107] fix: a query ended by an exception left the database
 locked

---
 Database/Database.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 4e84930..29f7fe1 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -1794,6 +1794,7 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 		{
 			return -101;
 		}
+		unique_ptr<pthread_rwlock_t, int (*)(pthread_rwlock_t *)> update_guard(txn == nullptr ? &(this->update_lock) : nullptr, pthread_rwlock_unlock);
 		if (txn == nullptr)
 			cout << "read priviledge of update lock acquired" << endl;
 
@@ -1833,8 +1834,6 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 		// general_evaluation.setNeedOutputAnswer();
 
 		// tmpsi.clear();
-		if (txn == nullptr)
-			pthread_rwlock_unlock(&(this->update_lock));
 	}
 	// Update
 	else
@@ -1856,6 +1855,7 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 			cout << "unable to write lock" << endl;
 			return -101;
 		}
+		unique_ptr<pthread_rwlock_t, int (*)(pthread_rwlock_t *)> update_guard(txn == nullptr ? &(this->update_lock) : nullptr, pthread_rwlock_unlock);
 		if (txn == nullptr)
 			cout << "write priviledge of update lock acquired" << endl;
 
@@ -1898,11 +1898,8 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 				}
 				else
 				{
-					if (txn == nullptr)
-					{
-						pthread_rwlock_unlock(&(this->update_lock));
-						throw "Database::query failed";
-					}
+					delete[] update_triple;
+					throw runtime_error("Only triples are allowed in the data of an update");
 				}
 
 			if (general_evaluation.getQueryTree().getUpdateType() == QueryTree::Insert_Data)
@@ -1954,8 +1951,6 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 			this->query_cache->clear();
 			cout << "QueryCache cleared" << endl;
 		}
-		if (txn == nullptr)
-			pthread_rwlock_unlock(&(this->update_lock));
 	}
 
 	long tv_final = Util::get_cur_time();
-- 
2.43.0


From dceddf6bff8e565432ee76527153275bfad4fa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:02 +0000
Subject: [PATCH 089/107] fix: some queries ended the process

---
 Database/PlanGenerator.cpp | 9 +++------
 Database/PlanTree.cpp      | 3 +--
 Query/BGPQuery.cpp         | 9 +++------
 Query/PathQueryHandler.cpp | 4 ++--
 4 files changed, 9 insertions(+), 16 deletions(-)

diff --git a/Database/PlanGenerator.cpp b/Database/PlanGenerator.cpp
index 1cb0751..504bbdd 100644
--- a/Database/PlanGenerator.cpp
+++ b/Database/PlanGenerator.cpp
@@ -90,12 +90,10 @@ JoinMethod PlanGenerator::GetJoinStrategy(bool s_is_var, bool p_is_var, bool o_i
 			if (o_is_var) return JoinMethod::sp2o;
 			if (p_is_var) return JoinMethod::so2p;
 		} else {
-			cout << "error: var_num not equal to 1 or 2" << endl;
-			exit(-1);
+			throw runtime_error("a variable is used both as a predicate and as a subject or object");
 		}
 	}
-	cout << "error: var_num not equal to 1 or 2" << endl;
-	exit(-1);
+	throw runtime_error("a variable is used both as a predicate and as a subject or object");
 }
 
 unsigned PlanGenerator::GetCandidateSizeFromWholeDB(unsigned int var_id) const {
@@ -1358,8 +1356,7 @@ PlanTree *PlanGenerator::GetSpecialOneTriplePlan() {
 				break;
 			}
 			default: {
-				cout << "error: joinmethod error" << endl;
-				exit(-1);
+				throw runtime_error("a variable is used both as a predicate and as a subject or object");
 			}
 		}
 	}
diff --git a/Database/PlanTree.cpp b/Database/PlanTree.cpp
index 61df69e..ce09f43 100644
--- a/Database/PlanTree.cpp
+++ b/Database/PlanTree.cpp
@@ -13,8 +13,7 @@ JoinMethod PlanTree::get_join_strategy(BGPQuery *bgp_query, shared_ptr<VarDescri
 	if(join_two_node){
 			return var_descrip->so_edge_type_[edge_index] == Util::EDGE_IN ? JoinMethod::s2po : JoinMethod::o2ps;
 	} else{
-		cout << "not support" << endl;
-		exit(-1);
+		throw runtime_error("unsupported join");
 	}
 }
 
diff --git a/Query/BGPQuery.cpp b/Query/BGPQuery.cpp
index fcd8d15..bb16d2e 100644
--- a/Query/BGPQuery.cpp
+++ b/Query/BGPQuery.cpp
@@ -557,24 +557,21 @@ bool BGPQuery::CheckConstBGPExist(const vector<Triple> &triple_vt, KVstore *_kvs
 			s_id = _kvstore->getIDByString(s_string);
 			if(s_id == INVALID) return false;
 		} else{
-			cout << "error: pass an var in CheckConstBGPExist!" << endl;
-			exit(-1);
+			throw runtime_error("a variable in a pattern of constants");
 		}
 
 		if(o_string.at(0) != '?'){
 			o_id = _kvstore->getIDByString(o_string);
 			if(o_id == INVALID) return false;
 		} else{
-			cout << "error: pass an var in CheckConstBGPExist!" << endl;
-			exit(-1);
+			throw runtime_error("a variable in a pattern of constants");
 		}
 
 		if(p_string.at(0) != '?'){
 			p_id = _kvstore->getIDByPredicate(p_string);
 			if(p_id == static_cast<int>(INVALID)) return false;
 		} else{
-			cout << "error: pass an var in CheckConstBGPExist!" << endl;
-			exit(-1);
+			throw runtime_error("a variable in a pattern of constants");
 		}
 
 		if(!_kvstore->existThisTriple(s_id, p_id, o_id)) return false;
diff --git a/Query/PathQueryHandler.cpp b/Query/PathQueryHandler.cpp
index edf54ad..cad4883 100644
--- a/Query/PathQueryHandler.cpp
+++ b/Query/PathQueryHandler.cpp
@@ -5690,7 +5690,7 @@ void PathQueryHandler::forward_local_update_linear_topk(int s, double &rsum, dou
 					if (next == -1)
 					{
 						cout << "ERROR!!!!!!" << endl;
-						exit(0); // TODO: throw an exception
+						throw runtime_error("a neighbour of a vertex is missing");
 					}
 
 					if (!fwd_idx.second.exist(next))
@@ -5885,7 +5885,7 @@ inline int PathQueryHandler::random_walk(int start, double alpha, const vector<i
 					if (cur == -1)
 					{
 						cout << "ERROR1!!!!!!" << endl;
-						exit(0); // TODO: throw an exception
+						throw runtime_error("a neighbour of a vertex is missing");
 					}
 					break;
 				}
-- 
2.43.0


From f84839ab37ea53077429d401ec1eb69262fa8b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:58 +0000
Subject: [PATCH 090/107] fix: a variable in both roles of one triple ended the
 process or read out of bounds

---
 Query/BGPQuery.cpp | 9 +++++++++
 Query/BGPQuery.h   | 1 +
 2 files changed, 10 insertions(+)

diff --git a/Query/BGPQuery.cpp b/Query/BGPQuery.cpp
index bb16d2e..015b889 100644
--- a/Query/BGPQuery.cpp
+++ b/Query/BGPQuery.cpp
@@ -207,6 +207,13 @@ const shared_ptr<VarDescriptor> &BGPQuery::get_vardescrip_by_id(unsigned id) {
 	return this->var_vector[this->get_var_position_by_id(id)];
 }
 
+// Predicates and entities have ids of their own: no variable can stand for both of one triple
+void BGPQuery::CheckVarRoles() {
+	for (const auto &triple : triple_vt)
+		if (triple.predicate.at(0) == '?' && (triple.predicate == triple.subject || triple.predicate == triple.object))
+			throw runtime_error("unsupported: variable " + triple.predicate + " is used both as a predicate and as a subject or object");
+}
+
 void BGPQuery::ScanAllVar(const vector<string>& _query_var) {
 
 	bool not_found;
@@ -403,6 +410,7 @@ bool BGPQuery::EncodeBGPQuery(KVstore *_kvstore, const vector<string> &_query_va
 
 	// I want this function scan all vars, incluing all pre_var and subject_or_object_var
 	this->ScanAllVar(_query_var);
+	this->CheckVarRoles();
 
 	bool legal_bgp = this->build_edge_info(_kvstore);
 
@@ -530,6 +538,7 @@ bool BGPQuery::EncodeSmallBGPQuery(BGPQuery *big_bgpquery_, KVstore *_kvstore,
 	this->distinct_query = distinct;
 
 	this->ScanAllVarByBigBGPID(big_bgpquery_, _query_var);
+	this->CheckVarRoles();
 
 	bool legal_bgp = this->build_edge_info(_kvstore);
 
diff --git a/Query/BGPQuery.h b/Query/BGPQuery.h
index df3bc1c..a3f73ae 100644
--- a/Query/BGPQuery.h
+++ b/Query/BGPQuery.h
@@ -214,6 +214,7 @@ public:
 	// void update_so_var_edge_info(uns);
 
 	void ScanAllVar(const vector<string>& _query_var);
+	void CheckVarRoles();
 	bool build_edge_info(KVstore *_kvstore);
 	void count_statistics_num();
 
-- 
2.43.0


From 509c9526a9579d40e1e2608aa7f4b770518ce213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:58 +0000
Subject: [PATCH 091/107] fix: ORDER BY of an expression without variables
 crashed

---
 Query/GeneralEvaluation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 9bcc506..d63688e 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -3396,7 +3396,8 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 				{
 					// int var_id = Varset(this->query_tree.getOrderVarVector()[i].var).mapTo(ret_result_varset)[0];
 					// Temporary, to be changed to allow for more than one var in one ORDER BY condition
-					int var_id = this->query_tree.getOrderVarVector()[i].comp_tree_root.getVarset().mapTo(ret_result_varset)[0];
+					vector<int> var_ids = this->query_tree.getOrderVarVector()[i].comp_tree_root.getVarset().mapTo(ret_result_varset);
+					int var_id = var_ids.empty() ? -1 : var_ids[0];
 					if (var_id != -1)
 					{
 						keys.push_back(var_id);
-- 
2.43.0


From 9f1b27059ea4000525afbb922bdf1ab0835fea30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:35 +0000
Subject: [PATCH 092/107] fix: ORDER BY of a function call crashed

---
 Parser/QueryParser.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index f3bd52a..a286d1a 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -1357,7 +1357,14 @@ antlrcpp::Any QueryParser::visitOrderClause(SPARQLParser::OrderClauseContext *ct
 		if (orderCondition->children[0]->children.size() == 0)	// ( 'ASC' | 'DESC' ) brackettedexpression
 			expOrVarCtx = orderCondition->brackettedexpression()->expression();
 		else if (orderCondition->constraint())	// constraint | var
-			expOrVarCtx = orderCondition->constraint()->brackettedexpression()->expression();
+		{
+			if (orderCondition->constraint()->functionCall())
+				throw runtime_error("[ERROR]	Function call currently not supported in ORDER BY.");
+			if (orderCondition->constraint()->builtInCall())
+				expOrVarCtx = orderCondition->constraint()->builtInCall();
+			else
+				expOrVarCtx = orderCondition->constraint()->brackettedexpression()->expression();
+		}
 		else
 		{
 			expOrVarCtx = orderCondition->var();
-- 
2.43.0


From c2441ca6b80e5c85a54ac0e222b4973f6bcdd8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:51 +0000
Subject: [PATCH 093/107] fix: a collection as a subject crashed

---
 Parser/QueryParser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index a286d1a..0fcf004 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -1151,6 +1151,8 @@ antlrcpp::Any QueryParser::visitTriplesSameSubjectpath(SPARQLParser::TriplesSame
 	string subject, predicate, object;
 	bool kleene = false;
 
+	if (!ctx->varOrTerm())
+		throw runtime_error("[ERROR]	Collections and blank node property lists are currently not supported.");
 	subject = ctx->varOrTerm()->getText();
 	if (ctx->varOrTerm()->graphTerm() && ctx->varOrTerm()->graphTerm()->blankNode())
 		subject = "<" + subject + ">";
@@ -1603,6 +1605,8 @@ antlrcpp::Any QueryParser::visitTriplesSameSubject(SPARQLParser::TriplesSameSubj
 
 	string subject, predicate, object;
 
+	if (!ctx->varOrTerm())
+		throw runtime_error("[ERROR]	Collections and blank node property lists are currently not supported.");
 	subject = ctx->varOrTerm()->getText();
 	if (ctx->varOrTerm()->graphTerm() && ctx->varOrTerm()->graphTerm()->blankNode())
 		subject = "<" + subject + ">";
-- 
2.43.0


From d9e9c6f03f8763d0a69fe5c5f3319ffd7a884ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:51 +0000
Subject: [PATCH 094/107] fix: GROUP BY of a variable that no pattern binds
 read before the row

---
 Query/TempResult.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 9808198..a34bbb0 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -127,6 +127,8 @@ int TempResult::compareRow(const ResultPair &x, const int x_id_cols, const vecto
 	{
 		int px = x_pos[i], py = y_pos[i];
 
+		if (px < 0 || py < 0)	// not bound by any pattern
+			continue;
 		if (px < x_id_cols && py < y_id_cols)
 		{
 			if (x.id[px] < y.id[py])
-- 
2.43.0


From 6e7ff42883561306faadb345536f106ef9c25a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:04 +0000
Subject: [PATCH 095/107] fix: an expression selected under the name of another
 selected variable crashed

---
 Parser/QueryParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index 0fcf004..66094e8 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -332,6 +332,9 @@ void QueryParser::parseSelectAggregateFunction(SPARQLParser::ExpressionContext *
 	SPARQLParser::VarContext *varCtx)
 {
 	// Sanity checks
+	for (const ProjectionVar &selected : query_tree_ptr->getProjection())
+		if (selected.var == varCtx->getText())
+			throw runtime_error("[ERROR]	" + selected.var + " is selected twice.");
 	SPARQLParser::PrimaryexpressionContext *prmCtx = expCtx->conditionalOrexpression()-> \
 		conditionalAndexpression(0)->valueLogical(0)->relationalexpression()-> \
 		numericexpression(0)->additiveexpression()->multiplicativeexpression(0)-> \
-- 
2.43.0


From 4f19811dff9e7ac96d5f4eb78cfdc2c99b02a0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:50 +0000
Subject: [PATCH 096/107] fix: a database unloaded by hand was freed again by
 its destructor

---
 Database/Database.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 29f7fe1..d30623f 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -1594,6 +1594,7 @@ bool Database::unload()
 	}
 
 	delete this->query_cache;
+	this->query_cache = NULL;
 
 	this->if_loaded = false;
 	this->clear_update_log();
-- 
2.43.0


From 7c0f7779682b6d21aaf70979905544bdbb0c5b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:50 +0000
Subject: [PATCH 097/107] fix: names and passwords with special characters were
 read as part of the system database's updates or left its locks taken

---
 GRPC/APIUtil.cpp | 49 ++++++++++++++++++++++++++++++++++++++++--------
 Util/Util.cpp    | 34 +++++++++++++++++++++++++++++++++
 Util/Util.h      |  4 ++++
 3 files changed, 79 insertions(+), 8 deletions(-)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index e656e10..33995f9 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -7,6 +7,7 @@
  * @FilePath: /gstore/GRPC/APIUtil.cpp
  */
 #include "APIUtil.h"
+#include <cstring>
 
 
 
@@ -277,7 +278,9 @@ int APIUtil::initialize(const std::string server_type, const std::string port, c
             for (unsigned int i = 0; i < rs.ansNum; i++)
             {
                 string username = util.clear_angle_brackets(rs.answer[i][0]);
-                string password = util.replace_all(rs.answer[i][1], "\"", "");
+                string password = rs.answer[i][1];
+                if (password.length() >= 2 && password[0] == '"' && password[password.length() - 1] == '"')
+                    password = password.substr(1, password.length() - 2);
                 struct DBUserInfo *user = new DBUserInfo(username, password);
                 
                 //privilege add
@@ -1202,7 +1205,22 @@ std::string APIUtil::check_param_value(const string& paramname, const string& va
 		result = "the value of " + paramname + " can not be empty!";
 		return result;
 	}
-	if (paramname == "db_name")
+	if (paramname == "db_name" || paramname == "new_name" || paramname == "op_username")
+	{
+		// these become IRIs of the system database, names of directories and parts of commands
+		bool legal = value[0] != '-' && value[0] != '.';
+		for (size_t i = 0; i < value.length() && legal; i++)
+		{
+			unsigned char c = value[i];
+			legal = c > ' ' && c != 0x7f && strchr("<>\"{}|^`\\/'$&;()*?!#~[]", c) == NULL;
+		}
+		if (!legal)
+		{
+			result = "the value of " + paramname + " contains illegal characters!";
+			return result;
+		}
+	}
+	if (paramname == "db_name" || paramname == "new_name")
 	{
 		string database = value;
 		if (database == SYSTEM_DB_NAME)
@@ -1374,7 +1392,20 @@ bool APIUtil::update_sys_db(string query)
     ResultSet _rs;
     FILE* ofp = stdout;
     string msg;
-	int ret = system_database->query(query, _rs, ofp);
+	int ret = -101;
+    try
+    {
+        ret = system_database->query(query, _rs, ofp);
+    }
+    catch (const std::exception &e)
+    {
+        // the callers hold locks: report the failure, do not leave them behind
+        SLOG_ERROR("update of the system database failed: " + string(e.what()));
+    }
+    catch (...)
+    {
+        SLOG_ERROR("update of the system database failed");
+    }
     if (ret <= -100)  //select query
     {
         if(ret == -100)
@@ -1490,12 +1521,14 @@ bool APIUtil::user_add(const string& username, const string& password)
         #if defined(DEBUG)
         SLOG_DEBUG("user ready to add.");
         #endif
-        struct DBUserInfo *temp_user = new DBUserInfo(username, password);
-        users.insert(pair<std::string, struct DBUserInfo *>(username, temp_user));
-        string update = "INSERT DATA {<" + username + "> <has_password> \"" + password + "\".}";
+        string update = "INSERT DATA {<" + username + "> <has_password> \"" + Util::escape_literal(password) + "\".}";
         result = update_sys_db(update);
         if (result)
+        {
+            struct DBUserInfo *temp_user = new DBUserInfo(username, password);
+            users.insert(pair<std::string, struct DBUserInfo *>(username, temp_user));
             refresh_sys_db();
+        }
     }
     pthread_rwlock_unlock(&users_map_lock);
     return result;
@@ -1540,12 +1573,12 @@ bool APIUtil::user_pwd_alert(const string& username, const string& password)
     iter = users.find(username);
     if(iter != users.end())
     {
-        iter->second->setPassword(password);
         string update = "DELETE WHERE {<" + username + "> <has_password> ?o.}";
         result = update_sys_db(update);
         if (result)
         {
-            update = "INSERT DATA {<" + username + "> <has_password>  \"" + password + "\".}";
+            iter->second->setPassword(password);
+            update = "INSERT DATA {<" + username + "> <has_password>  \"" + Util::escape_literal(password) + "\".}";
             result = update_sys_db(update) || result;
             refresh_sys_db();
         }
diff --git a/Util/Util.cpp b/Util/Util.cpp
index 20e5d58..815a6c1 100644
--- a/Util/Util.cpp
+++ b/Util/Util.cpp
@@ -2460,6 +2460,40 @@ Util::replace_all(std::string _content,const std::string oldtext,const std::stri
     return  _content;
 }
 
+std::string
+Util::escape_literal(const std::string& _str)
+{
+    std::string out;
+    for (char c : _str)
+    {
+        switch (c)
+        {
+            case '\\': out += "\\\\"; break;
+            case '"': out += "\\\""; break;
+            case '\n': out += "\\n"; break;
+            case '\r': out += "\\r"; break;
+            case '\t': out += "\\t"; break;
+            default: out += c;
+        }
+    }
+    return out;
+}
+
+std::string
+Util::shell_quote(const std::string& _str)
+{
+    std::string out = "'";
+    for (char c : _str)
+    {
+        if (c == '\'')
+            out += "'\\''";
+        else
+            out += c;
+    }
+    return out + "'";
+}
+
+
 std::string
 Util::clear_angle_brackets(std::string _str)
 {
diff --git a/Util/Util.h b/Util/Util.h
index c49c3b7..ad7ff2d 100644
--- a/Util/Util.h
+++ b/Util/Util.h
@@ -418,6 +418,10 @@ public:
 
     static std::string replace_all(std::string _content,const std::string oldtext,const std::string newtext);
     static std::string clear_angle_brackets(std::string _str);
+    // the lexical form of a literal as it is written between quotes in a query
+    static std::string escape_literal(const std::string& _str);
+    // the string as one word of a shell command
+    static std::string shell_quote(const std::string& _str);
 
 	static bool is_literal_ele(TYPE_ENTITY_LITERAL_ID id);
 	static bool is_entity_ele(TYPE_ENTITY_LITERAL_ID id);
-- 
2.43.0


From 03ddf1b66ae9c316066cf00e412c96591d28a5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:50 +0000
Subject: [PATCH 098/107] fix: paths of backups were read as shell commands,
 and backups into missing directories or within one second were lost

---
 GRPC/APIUtil.cpp |  2 +-
 Main/ghttp.cpp   | 21 ++++++++++++++++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index 33995f9..02760b4 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -586,7 +586,7 @@ int APIUtil::db_copy(string src_path, string dest_path)
         #endif
         util.create_dirs(dest_path);
     }
-    sys_cmd = "cp -r " + src_path + ' ' + dest_path;
+    sys_cmd = "cp -r -- " + Util::shell_quote(src_path) + ' ' + Util::shell_quote(dest_path);
     system(sys_cmd.c_str());
     return 0; // success
 }
diff --git a/Main/ghttp.cpp b/Main/ghttp.cpp
index fdbd966..c69db4b 100644
--- a/Main/ghttp.cpp
+++ b/Main/ghttp.cpp
@@ -1865,8 +1865,23 @@ void backup_thread_new(const shared_ptr<HttpServer::Request> &request, const sha
 			string sys_cmd, _path;
 			apiUtil->string_suffix(path, '/');
 			_path = path + new_folder;
-			sys_cmd = "mv " + default_backup_path + "/" + db_name + _db_suffix + " " + _path;
-			system(sys_cmd.c_str());
+			while (Util::dir_exist(_path))
+			{
+				// a backup of the same second is there already
+				sleep(1);
+				new_folder = db_name + _db_suffix + "_" + Util::get_timestamp();
+				_path = path + new_folder;
+			}
+			sys_cmd = "mv -- " + Util::shell_quote(default_backup_path + "/" + db_name + _db_suffix) + " " + Util::shell_quote(_path);
+			if (Util::dir_exist(path) == false)
+				Util::create_dirs(path);
+			if (system(sys_cmd.c_str()) != 0)
+			{
+				error = "Failed to move the backup to " + _path;
+				apiUtil->unlock_databaseinfo(db_info);
+				sendResponseMsg(1005, error, operation, request, response);
+				return;
+			}
 
 			SLOG_DEBUG("database backup done: " + db_name);
 			string success = "Database backup successfully.";
@@ -2036,7 +2051,7 @@ void restore_thread_new(const shared_ptr<HttpServer::Request> &request, const sh
 			string db_path = _db_home + "/" + db_name + _db_suffix;
 			Util::remove_path(db_path);
 			// mv backup folder to database folder
-			string sys_cmd = "mv " + _db_home + "/" + folder_name + " " + db_path;
+			string sys_cmd = "mv -- " + Util::shell_quote(_db_home + "/" + folder_name) + " " + Util::shell_quote(db_path);
 			std::system(sys_cmd.c_str());
 			apiUtil->unlock_databaseinfo(db_info);
 			
-- 
2.43.0


From 6addac44b34a8487aaa53fcbbe94bf76b6226836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:50 +0000
Subject: [PATCH 099/107] fix: files were taken and given without checking the
 password

---
 Main/ghttp.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/Main/ghttp.cpp b/Main/ghttp.cpp
index c69db4b..70fb35e 100644
--- a/Main/ghttp.cpp
+++ b/Main/ghttp.cpp
@@ -4590,6 +4590,21 @@ void upload_handler(const HttpServer &server, const shared_ptr<HttpServer::Respo
 		formPtr.release();
 		return;
 	}
+	error = apiUtil->check_indentity(username, password, "0");
+	if (error.empty() == false)
+	{
+		apiUtil->update_access_ip_error_num(remote_ip);
+		sendResponseMsg(1001, error, operation, request, response);
+		formPtr.release();
+		return;
+	}
+	if (formPtr->find("file") == formPtr->end())
+	{
+		error = "Upload file can not be empty!";
+		sendResponseMsg(1003, error, operation, request, response);
+		formPtr.release();
+		return;
+	}
 	// filename : filecontent
 	std::pair<std::string, std::string>& fileinfo = formPtr->at("file");
 	if(fileinfo.first.empty())
@@ -4752,6 +4767,13 @@ void download_handler(const HttpServer &server, const shared_ptr<HttpServer::Res
 		sendResponseMsg(1003, error, operation, request, response);
 		return;
 	}
+	error = apiUtil->check_indentity(username, password, encryption);
+	if (error.empty() == false)
+	{
+		apiUtil->update_access_ip_error_num(remote_ip);
+		sendResponseMsg(1001, error, operation, request, response);
+		return;
+	}
 	if (Util::is_file(filepath))
 	{
 		// the file must in the gstore home dir
@@ -4759,7 +4781,7 @@ void download_handler(const HttpServer &server, const shared_ptr<HttpServer::Res
 		std::string cur_path = Util::get_cur_path();
 		SLOG_DEBUG("download file path: " + filepath);
 		SLOG_DEBUG("file exact path: " + exact_path);
-		if (start_with(exact_path, cur_path) == false)
+		if (start_with(exact_path, cur_path + "/") == false)
 		{
 			error = "Download file must in the gstore home dir";
 			sendResponseMsg(1005, error, operation, request, response);
-- 
2.43.0


From c876cc12a90c0d83b5862c964af772c3ecb19161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:12 +0000
Subject: [PATCH 100/107] fix: JSON of other shapes than expected ended the
 server

---
 Main/ghttp.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/Main/ghttp.cpp b/Main/ghttp.cpp
index 70fb35e..df2f57c 100644
--- a/Main/ghttp.cpp
+++ b/Main/ghttp.cpp
@@ -3391,8 +3391,9 @@ void request_thread(const shared_ptr<HttpServer::Response> &response,
 		auto strJson = request->content.string();
 		SLOG_DEBUG("post content: \n" + strJson);
 
-		document.Parse(strJson.c_str());
-		if (document.HasParseError())
+		// iterative: the depth of the text is the caller's choice
+		document.Parse<kParseIterativeFlag>(strJson.c_str());
+		if (document.HasParseError() || !document.IsObject())
 		{
 			string error = "the post content is not fit the json format, content=" + strJson;
 			sendResponseMsg(1004, error, "paramcheck ", request, response);
@@ -3418,7 +3419,7 @@ void request_thread(const shared_ptr<HttpServer::Response> &response,
 		{
 			password = document["password"].GetString();
 		}
-		if (document.HasMember("encryption"))
+		if (document.HasMember("encryption") && document["encryption"].IsString())
 		{
 			encryption = document["encryption"].GetString();
 		}
@@ -3669,8 +3670,10 @@ void request_thread(const shared_ptr<HttpServer::Response> &response,
 			}
 			else if (request_type == "POST")
 			{
-				type = document["type"].GetString();
-
+				if (document.HasMember("type") && document["type"].IsString())
+				{
+					type = document["type"].GetString();
+				}
 				if (document.HasMember("op_username") && document["op_username"].IsString())
 				{
 					op_username = document["op_username"].GetString();
@@ -4218,7 +4221,7 @@ void request_thread(const shared_ptr<HttpServer::Response> &response,
 		{
 			if (request_type == "POST")
 			{
-				if (document.HasMember("funInfo"))
+				if (document.HasMember("funInfo") && document["funInfo"].IsObject())
 				{
 					Value &fun_info = document["funInfo"];
 					build_PFNInfo(fun_info, pfn_info);
@@ -4279,7 +4282,7 @@ void request_thread(const shared_ptr<HttpServer::Response> &response,
 		{
 			if (request_type == "POST")
 			{
-				if (document.HasMember("funInfo"))
+				if (document.HasMember("funInfo") && document["funInfo"].IsObject())
 				{
 					Value &fun_info = document["funInfo"];
 					build_PFNInfo(fun_info, pfn_info);
@@ -4433,8 +4436,8 @@ void shutdown_handler(const HttpServer &server, const shared_ptr<HttpServer::Res
 		auto strJson = request->content.string();
 		SLOG_DEBUG("shutdown post content: \n" + strJson);
 
-		document.Parse(strJson.c_str());
-		if (document.HasParseError())
+		document.Parse<kParseIterativeFlag>(strJson.c_str());
+		if (document.HasParseError() || !document.IsObject())
 		{
 			string error = "the post content is not fit the json format,content=" + strJson;
 			sendResponseMsg(1003, error, operation, request, response);
-- 
2.43.0


From dca604dd3dd052f176545e1baba21690248a4d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:12 +0000
Subject: [PATCH 101/107] fix: a database could be unloaded or loaded twice
 while another request used it

---
 GRPC/APIUtil.cpp | 17 +++++++-----
 Main/ghttp.cpp   | 72 ++++++++++++++++++++++++++++++++++++++++--------
 2 files changed, 70 insertions(+), 19 deletions(-)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index 02760b4..efa5b55 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -495,7 +495,7 @@ bool APIUtil::ip_check(const string& ip)
 
 bool APIUtil::ip_error_num_check(const string& ip)
 {
-    pthread_rwlock_rdlock(&ips_map_lock);
+    pthread_rwlock_wrlock(&ips_map_lock);
     std::map<std::string, struct IpInfo *>::iterator it = ips.find(ip);
     if (it != ips.end())
     {
@@ -517,7 +517,7 @@ bool APIUtil::ip_error_num_check(const string& ip)
 
 void APIUtil::update_access_ip_error_num(const string& ip)
 {
-    pthread_rwlock_rdlock(&ips_map_lock);
+    pthread_rwlock_wrlock(&ips_map_lock);
     std::map<std::string, struct IpInfo *>::iterator it = ips.find(ip);
     if (it != ips.end())
     {
@@ -535,7 +535,7 @@ void APIUtil::update_access_ip_error_num(const string& ip)
 
 void APIUtil::reset_access_ip_error_num(const string& ip)
 {
-    pthread_rwlock_rdlock(&ips_map_lock);
+    pthread_rwlock_wrlock(&ips_map_lock);
     std::map<std::string, struct IpInfo *>::iterator it = ips.find(ip);
     if (it != ips.end())
     {
@@ -706,7 +706,7 @@ bool APIUtil::unlock_databaseinfo(DatabaseInfo* dbinfo)
 bool APIUtil::insert_txn_managers(Database* current_database, std::string database)
 {
     shared_ptr<Txn_manager> txn_m = make_shared<Txn_manager>(current_database, database);
-    if(pthread_rwlock_trywrlock(&txn_m_lock) ==0)
+    if(pthread_rwlock_wrlock(&txn_m_lock) ==0)
     {
         txn_managers.insert(pair<string, shared_ptr<Txn_manager>>(database, txn_m));
         if (pthread_rwlock_unlock(&txn_m_lock) == 0)
@@ -1129,8 +1129,9 @@ bool APIUtil::trywrlock_database(const std::string &db_name)
     bool result = false;
     pthread_rwlock_rdlock(&already_build_map_lock);
     std::map<std::string, struct DatabaseInfo *>::iterator iter = already_build.find(db_name);
+    struct DatabaseInfo *db_info = iter == already_build.end() ? NULL : iter->second;
     pthread_rwlock_unlock(&already_build_map_lock);
-    if (pthread_rwlock_trywrlock(&(iter->second->db_lock)) == 0)
+    if (db_info != NULL && pthread_rwlock_trywrlock(&(db_info->db_lock)) == 0)
     {
         result = true;
     }
@@ -1142,8 +1143,9 @@ bool APIUtil::rdlock_database(const std::string &db_name)
     bool result = false;
     pthread_rwlock_rdlock(&already_build_map_lock);
     std::map<std::string, struct DatabaseInfo *>::iterator iter = already_build.find(db_name);
+    struct DatabaseInfo *db_info = iter == already_build.end() ? NULL : iter->second;
     pthread_rwlock_unlock(&already_build_map_lock);
-    if (pthread_rwlock_rdlock(&(iter->second->db_lock)) == 0)
+    if (db_info != NULL && pthread_rwlock_rdlock(&(db_info->db_lock)) == 0)
     {
         result = true;
     }
@@ -1155,8 +1157,9 @@ bool APIUtil::unlock_database(const std::string &db_name)
     bool result = false;
     pthread_rwlock_rdlock(&already_build_map_lock);
     std::map<std::string, struct DatabaseInfo *>::iterator iter = already_build.find(db_name);
+    struct DatabaseInfo *db_info = iter == already_build.end() ? NULL : iter->second;
     pthread_rwlock_unlock(&already_build_map_lock);
-    if (pthread_rwlock_unlock(&(iter->second->db_lock)) == 0)
+    if (db_info != NULL && pthread_rwlock_unlock(&(db_info->db_lock)) == 0)
     {
         result = true;
     }
diff --git a/Main/ghttp.cpp b/Main/ghttp.cpp
index df2f57c..39c7c8f 100644
--- a/Main/ghttp.cpp
+++ b/Main/ghttp.cpp
@@ -1088,6 +1088,14 @@ void load_thread_new(const shared_ptr<HttpServer::Request> &request, const share
 				sendResponseMsg(1005, error, operation, request, response);
 				return;
 			}
+			// another request may have loaded it meanwhile
+			if (apiUtil->check_already_load(db_name))
+			{
+				apiUtil->unlock_database(db_name);
+				error = "Unable to load due to loss of lock.";
+				sendResponseMsg(1005, error, operation, request, response);
+				return;
+			}
 
 			Socket socket;
 			Database *current_database = new Database(db_name);
@@ -1195,11 +1203,14 @@ void monitor_thread_new(const shared_ptr<HttpServer::Request> &request, const sh
 		}
 		string creator = database_info->getCreator();
 		string time = database_info->getTime();
-		apiUtil->unlock_databaseinfo(database_info);
+		// the lock is kept as long as the database is read: it may be unloaded meanwhile
+		std::shared_ptr<struct DatabaseInfo> lock_guard(database_info, [](struct DatabaseInfo *info) { apiUtil->unlock_databaseinfo(info); });
 		Database* current_database;
 		apiUtil->get_database(db_name, current_database);
+		std::unique_ptr<Database> unloaded_database;
 		if (current_database == NULL) {
 			current_database = new Database(db_name);
+			unloaded_database.reset(current_database);
 			current_database->loadDBInfoFile();
 			current_database->loadStatisticsInfoFile();
 		}
@@ -1289,6 +1300,12 @@ void unload_thread_new(const shared_ptr<HttpServer::Request> &request, const sha
 			sendResponseMsg(1007, error, operation, request, response);
 			return;
 		}
+		else if (apiUtil->check_already_load(db_name) == false)
+		{
+			apiUtil->unlock_databaseinfo(db_info);
+			error = "the database not load yet.";
+			sendResponseMsg(1004, error, operation, request, response);
+		}
 		else
 		{
 			apiUtil->db_checkpoint(db_name);
@@ -1835,6 +1852,15 @@ void backup_thread_new(const shared_ptr<HttpServer::Request> &request, const sha
 			sendResponseMsg(1007, error, operation, request, response);
 			return;
 		}
+		// it may have been unloaded meanwhile
+		apiUtil->get_database(db_name, current_db);
+		if (current_db == NULL)
+		{
+			error = "Database not load yet.";
+			apiUtil->unlock_databaseinfo(db_info);
+			sendResponseMsg(1004, error, operation, request, response);
+			return;
+		}
 		// begin backup database
 		string path = backup_path;
 		string default_backup_path = apiUtil->get_backup_path();
@@ -2112,12 +2138,6 @@ void query_thread_new(const shared_ptr<HttpServer::Request> &request, const shar
 			{
 				throw runtime_error("Database not build yet.");
 			}
-			// check database load status
-			apiUtil->get_database(db_name, current_database);
-			if (current_database == NULL)
-			{
-				throw runtime_error("Database not load yet.");
-			}
 			bool lock_rt = apiUtil->rdlock_database(db_name);
 			if (lock_rt)
 			{
@@ -2127,6 +2147,13 @@ void query_thread_new(const shared_ptr<HttpServer::Request> &request, const shar
 			{
 				throw runtime_error("get current database read lock fail.");
 			}
+			// check database load status, with the lock: it may be unloaded meanwhile
+			apiUtil->get_database(db_name, current_database);
+			if (current_database == NULL)
+			{
+				apiUtil->unlock_database(db_name);
+				throw runtime_error("Database not load yet.");
+			}
 		}
 		catch (const std::exception &e)
 		{
@@ -2482,6 +2509,15 @@ void export_thread_new(const shared_ptr<HttpServer::Request> &request, const sha
 		}
 		db_path = db_path + db_name + "_" + Util::get_timestamp() + ".nt";
 		apiUtil->rdlock_database(db_name); // lock database
+		// it may have been unloaded meanwhile
+		apiUtil->get_database(db_name, current_database);
+		if (current_database == NULL)
+		{
+			apiUtil->unlock_database(db_name);
+			error = "Database not load yet.";
+			sendResponseMsg(1004, error, operation, request, response);
+			return;
+		}
 		SLOG_DEBUG("export_path: " + db_path);
 		FILE *ofp = fopen(db_path.c_str(), "w");
 		current_database->export_db(ofp);
@@ -3043,7 +3079,9 @@ void checkpoint_thread_new(const shared_ptr<HttpServer::Request> &request, const
 		else
 		{
 			auto txn_m = apiUtil->get_Txn_ptr(db_name);
-			if (txn_m == NULL)
+			// it may have been unloaded meanwhile
+			apiUtil->get_database(db_name, current_database);
+			if (txn_m == NULL || current_database == NULL)
 			{
 				error = "Get database transaction manager error.";
 				apiUtil->unlock_database(db_name);
@@ -3203,13 +3241,18 @@ void batchInsert_thread_new(const shared_ptr<HttpServer::Request> &request, cons
 			}
 			upfile.getFileList(zip_files, "");
 		}
-		Database *current_database;
-		apiUtil->get_database(db_name, current_database);
+		Database *current_database = NULL;
 		if (apiUtil->trywrlock_database(db_name) == false)
 		{
 			error = "The operation can not been excuted due to loss of lock.";
 			sendResponseMsg(1004, error, operation, request, response);
 		}
+		else if (!apiUtil->get_database(db_name, current_database) || current_database == NULL)
+		{
+			apiUtil->unlock_database(db_name);
+			error = "Database not load yet.";
+			sendResponseMsg(1004, error, operation, request, response);
+		}
 		else
 		{
 			string success = "Batch insert data successfully.";
@@ -3320,13 +3363,18 @@ void batchRemove_thread_new(const shared_ptr<HttpServer::Request> &request, cons
 			sendResponseMsg(1004, error, operation, request, response);
 			return;
 		}
-		Database *current_database;
-		apiUtil->get_database(db_name, current_database);
+		Database *current_database = NULL;
 		if (apiUtil->trywrlock_database(db_name) == false)
 		{
 			error = "The operation can not been excuted due to loss of lock.";
 			sendResponseMsg(1007, error, operation, request, response);
 		}
+		else if (!apiUtil->get_database(db_name, current_database) || current_database == NULL)
+		{
+			apiUtil->unlock_database(db_name);
+			error = "Database not load yet.";
+			sendResponseMsg(1004, error, operation, request, response);
+		}
 		else
 		{
 			string success = "Batch remove data successfully.";
-- 
2.43.0


From 5cf5d668682c8a509ab187019d7ad9cbec20fce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:13 +0000
Subject: [PATCH 102/107] fix: asking for an empty transaction log left its
 lock taken, and every later transaction waited forever

---
 GRPC/APIUtil.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index efa5b55..3f15bd0 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -2424,6 +2424,7 @@ void APIUtil::get_transactionlog(int &page_no, int &page_size, struct Transactio
         in.close();
         if (totalSize == 0)
         {
+            pthread_rwlock_unlock(&transactionlog_lock);
             dbQueryLogs->setTotalSize(totalSize);
             dbQueryLogs->setTotalPage(totalPage);
             return;
-- 
2.43.0


From 55d9d1f8c367cd2201b1528e2f4fa51062df2f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:28 +0000
Subject: [PATCH 103/107] fix: a predicate left without triples was freed again
 at each checkpoint

---
 Database/Database.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index d30623f..6b9180a 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -4837,6 +4837,8 @@ void Database::VersionClean(vector<unsigned> &sub_ids, vector<unsigned> &obj_ids
 		{
 			string pre_str = this->kvstore->getPredicateByID(_pre_id);
 			// cerr << "pre_str" << pre_str << endl;
+			if (pre_str == "") // freed already
+				continue;
 			this->kvstore->subIDByPredicate(pre_str);
 			this->kvstore->subPredicateByID(_pre_id);
 			this->freePredicateID(_pre_id);
-- 
2.43.0


From 99e69ee4d9de12f173cfa431fa82474715936507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:22 +0000
Subject: [PATCH 104/107] fix: triples added and removed by transactions were
 not counted

---
 Database/Database.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 6b9180a..d74e3a9 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -4847,6 +4847,11 @@ void Database::VersionClean(vector<unsigned> &sub_ids, vector<unsigned> &obj_ids
 		// cout<<"predicate dealed"<<endl;
 	}
 
+	// transactions did not count the triples they added and removed
+	this->triples_num = 0;
+	for (TYPE_PREDICATE_ID pid = 0; pid < (TYPE_PREDICATE_ID)this->limitID_predicate; pid++)
+		this->triples_num += (this->kvstore)->getPredicateDegree(pid);
+
 	// cerr << "vertices.size()" << vertices.size() << endl;
 	// cerr << "predicates.size()" << predicates.size() << endl;
 	this->stringindex->SetTrie(kvstore->getTrie());
-- 
2.43.0


From 94f0928056495e1dbe9d3576b93571fc063c539e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:49 +0000
Subject: [PATCH 105/107] fix: deeply nested brackets in an RDF file overran
 the stack

---
 Parser/TurtleParser.cpp | 7 +++++++
 Parser/TurtleParser.h   | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/Parser/TurtleParser.cpp b/Parser/TurtleParser.cpp
index 2059849..5b6b855 100644
--- a/Parser/TurtleParser.cpp
+++ b/Parser/TurtleParser.cpp
@@ -542,6 +542,8 @@ void TurtleParser::parseBlank(std::string& entry)
    // Parse a blank entry
 {
    Lexer::Token token=lexer.next(entry);
+   if (nesting>=maxNesting)
+      parseError("brackets nested too deeply");
    switch (token) {
       case Lexer::Name:
          if ((entry!="_")||(lexer.next()!=Lexer::Colon)||(!isName(lexer.next(entry))))
@@ -556,7 +558,9 @@ void TurtleParser::parseBlank(std::string& entry)
                lexer.ungetIgnored(token);
                std::string predicate,object,objectSubType;
                Type::ID objectType;
+               nesting++;
                parsePredicateObjectList(entry,predicate,object,objectType,objectSubType);
+               nesting--;
                triples.push_back(Triple(entry,predicate,object,objectType,objectSubType));
                if (lexer.next()!=Lexer::RBracket)
                   parseError("']' expected");
@@ -573,7 +577,9 @@ void TurtleParser::parseBlank(std::string& entry)
                entries.push_back(string());
                entryTypes.push_back(Type::URI);
                entrySubTypes.push_back(string());
+               nesting++;
                parseObject(entries.back(),entryTypes.back(),entrySubTypes.back());
+               nesting--;
             }
 
             // Empty collection?
@@ -830,6 +836,7 @@ bool TurtleParser::parse(std::string& subject,std::string& predicate,std::string
 
    // No, check if the input is done
    Lexer::Token token;
+   nesting=0;
    while (true) {
       token=lexer.next(subject);
       statementStart=lexer.getTokens();
diff --git a/Parser/TurtleParser.h b/Parser/TurtleParser.h
index 0b3f5b2..a3a89eb 100644
--- a/Parser/TurtleParser.h
+++ b/Parser/TurtleParser.h
@@ -137,6 +137,9 @@ class TurtleParser
    std::map<std::string,std::string> prefixes;
    /// The currently available triples
    std::vector<Triple> triples;
+   /// Brackets and parentheses open, and how many may be
+   unsigned nesting=0;
+   static const unsigned maxNesting=256;
    /// Reader in the triples
    unsigned triplesReader;
    /// The next blank node id
-- 
2.43.0


From 1125ef54df4bdeb65d235f6133814cf775bb5e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:03 +0000
Subject: [PATCH 106/107] fix: a zero byte in an RDF file cut off the stored
 term

---
 Parser/TurtleParser.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Parser/TurtleParser.cpp b/Parser/TurtleParser.cpp
index 5b6b855..5442b0b 100644
--- a/Parser/TurtleParser.cpp
+++ b/Parser/TurtleParser.cpp
@@ -76,6 +76,11 @@ void TurtleParser::Lexer::lexName(std::string& token)
          continue;
       }
       if (issep(c)) { unread(); return; }
+      if (!c) {
+         stringstream msg;
+         msg << "lexer error in line " << line << ": invalid name";
+         throw Exception(msg.str());
+      }
       token+=c;
    }
 }
@@ -262,6 +267,8 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::lexLongString(std::string& token
       }
       if (c=='\\') {
          lexEscape(token);
+      } else if (!c) {
+         token+=encodeUtf8(0);
       } else {
          token+=c;
          if (c=='\n') line++;
@@ -305,6 +312,8 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::lexString(std::string& token,cha
       }
       if (c=='\\') {
          lexEscape(token);
+      } else if (!c) {
+         token+=encodeUtf8(0);
       } else {
          token+=c;
       }
@@ -337,7 +346,7 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::lexURI(std::string& token,char c
          token+=c;
       }
       if (c=='\n') unread();
-      if (c==' ' || c=='\n' || !read(c)) {
+      if (c==' ' || c=='\n' || c=='\0' || !read(c)) {
          stringstream msg;
          msg << "lexer error in line " << line << ": invalid URI";
          throw Exception(msg.str());
-- 
2.43.0


From 0896dcb2ad3db7d99e2a2138245e4b53cb547b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:56 +0000
Subject: [PATCH 107/107] fix: a query that met an update worked with the id
 limits from before it

---
 Database/Database.cpp       | 16 ++++++++++++----
 Query/GeneralEvaluation.cpp | 19 +++++++++++++++++++
 Query/GeneralEvaluation.h   |  9 +++++++--
 3 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index d74e3a9..16de603 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -1747,10 +1747,16 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 {
 	string dictionary_store_path = this->store_path + "/dictionary.dc";
 
-	this->stringindex->SetTrie(this->kvstore->getTrie());
-	GeneralEvaluation general_evaluation(this->kvstore, this->stringindex, this->query_cache, this->csr,
-										 this->pre2num, this->pre2sub, this->pre2obj, this->triples_num,
-										 this->limitID_predicate, this->limitID_literal, this->limitID_entity, txn, this->getfreelist_entity(), this->getentity_num());
+	// The state of the database is set below, under the lock: updates may still be running here
+	GeneralEvaluation general_evaluation(this->kvstore, this->stringindex, this->query_cache, NULL,
+										 NULL, NULL, NULL, 0, 0, 0, 0, txn, NULL, 0);
+	auto set_state = [&]()
+	{
+		this->stringindex->SetTrie(this->kvstore->getTrie());
+		general_evaluation.setDatabaseState(this->csr, this->pre2num, this->pre2sub, this->pre2obj, this->triples_num,
+											this->limitID_predicate, this->limitID_literal, this->limitID_entity,
+											this->getfreelist_entity(), this->getentity_num());
+	};
 	if (txn != nullptr)
 		cout << "query in transaction............................................" << endl;
 	long tv_begin = Util::get_cur_time();
@@ -1798,6 +1804,7 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 		unique_ptr<pthread_rwlock_t, int (*)(pthread_rwlock_t *)> update_guard(txn == nullptr ? &(this->update_lock) : nullptr, pthread_rwlock_unlock);
 		if (txn == nullptr)
 			cout << "read priviledge of update lock acquired" << endl;
+		set_state();
 
 		// copy the string index for each query thread
 		// StringIndex tmpsi = *this->stringindex;
@@ -1859,6 +1866,7 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 		unique_ptr<pthread_rwlock_t, int (*)(pthread_rwlock_t *)> update_guard(txn == nullptr ? &(this->update_lock) : nullptr, pthread_rwlock_unlock);
 		if (txn == nullptr)
 			cout << "write priviledge of update lock acquired" << endl;
+		set_state();
 
 		success_num = 0;
 		TripleWithObjType *update_triple = NULL;
diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index d63688e..f69bc5c 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -201,6 +201,25 @@ GeneralEvaluation::GeneralEvaluation(KVstore *_kvstore, StringIndex *_stringinde
 	this->bgp_query_total = make_shared<BGPQuery>();
 }
 
+void
+GeneralEvaluation::setDatabaseState(CSR *_csr, TYPE_TRIPLE_NUM *_pre2num, TYPE_TRIPLE_NUM *_pre2sub, TYPE_TRIPLE_NUM *_pre2obj,
+									TYPE_TRIPLE_NUM _triples_num, TYPE_PREDICATE_ID _limitID_predicate, TYPE_ENTITY_LITERAL_ID _limitID_literal,
+									TYPE_ENTITY_LITERAL_ID _limitID_entity, const BlockInfo *freelist_entity, TYPE_ENTITY_LITERAL_ID entity_num)
+{
+	csr = _csr;
+	pqHandler = csr ? make_shared<PathQueryHandler>(csr) : nullptr;
+	pre2num = _pre2num;
+	pre2sub = _pre2sub;
+	pre2obj = _pre2obj;
+	triples_num = _triples_num;
+	limitID_predicate = _limitID_predicate;
+	limitID_literal = _limitID_literal;
+	limitID_entity = _limitID_entity;
+	all_entity_id = AllEntityId(freelist_entity, entity_num);
+	optimizer_ = make_shared<Optimizer>(kvstore,pre2num,pre2sub,pre2obj,triples_num,limitID_predicate,
+										limitID_literal,limitID_entity,txn);
+}
+
 void
 GeneralEvaluation::loadCSR()
 {
diff --git a/Query/GeneralEvaluation.h b/Query/GeneralEvaluation.h
index aab8cf2..fa51779 100644
--- a/Query/GeneralEvaluation.h
+++ b/Query/GeneralEvaluation.h
@@ -60,8 +60,8 @@ class GeneralEvaluation
 		// freelist_entity+entity_num: used for getting all entity id as sources in kleeneClosure evaluation
 		class AllEntityId
 		{
-			const BlockInfo *const freelist_entity,*head; // deleted entity id
-			const TYPE_ENTITY_LITERAL_ID entity_num;
+			const BlockInfo *freelist_entity,*head; // deleted entity id
+			TYPE_ENTITY_LITERAL_ID entity_num;
 			TYPE_ENTITY_LITERAL_ID next_id, iter_cnt; 
 		public:
 			AllEntityId(const BlockInfo *const freelist_entity, TYPE_ENTITY_LITERAL_ID entity_num):freelist_entity(freelist_entity),head(freelist_entity),entity_num(entity_num),next_id(0),iter_cnt(0){}
@@ -106,6 +106,11 @@ class GeneralEvaluation
 
 		~GeneralEvaluation() {}
 
+		// The state of the database to evaluate on, which may have changed since the construction
+		void setDatabaseState(CSR *_csr, TYPE_TRIPLE_NUM *_pre2num, TYPE_TRIPLE_NUM *_pre2sub, TYPE_TRIPLE_NUM *_pre2obj,
+							  TYPE_TRIPLE_NUM _triples_num, TYPE_PREDICATE_ID _limitID_predicate, TYPE_ENTITY_LITERAL_ID _limitID_literal,
+							  TYPE_ENTITY_LITERAL_ID _limitID_entity, const BlockInfo *freelist_entity, TYPE_ENTITY_LITERAL_ID entity_num);
+
 		bool parseQuery(const std::string &_query);
 		QueryTree& getQueryTree();
 
-- 
2.43.0

