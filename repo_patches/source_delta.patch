From af9bb42ecc14bb32ee2519b094fcb20c5ff8334d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:22 +0000
Subject: [PATCH 01/48] fix: do not let arcs of infinite weight overflow
 contraction hierarchy weights

Two arcs of weight inf_weight were combined into a shortcut whose weight
wrapped around in the next addition, so that nodes without any finite
connection got small distances. Arcs and shortcuts that are not shorter
than inf_weight are now ignored.
---
 src/contraction_hierarchy.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/contraction_hierarchy.cpp b/src/contraction_hierarchy.cpp
index 794c7c6..41b0536 100644
--- a/src/contraction_hierarchy.cpp
+++ b/src/contraction_hierarchy.cpp
@@ -95,7 +95,8 @@ namespace{
 				unsigned w = weight[a];
 
 
-				if(x != y){
+				// An arc with weight inf_weight is never part of a path
+				if(x != y && w < inf_weight){
 					out_[x].push_back({y, w, 1, invalid_id});
 					in_[y].push_back({x, w, 1, invalid_id});
 				}
@@ -330,6 +331,10 @@ namespace{
 
 				unsigned next_node_distance = distance_to_popped_node + graph_out(popped_node, out_arc).weight;
 
+				// Guarantees that adding two tentative distances cannot overflow
+				if(next_node_distance >= inf_weight)
+					continue;
+
 				if(was_forward_pushed.is_set(next_node)){
 					if(next_node_distance < forward_tentative_distance[next_node]){
 						forward_queue.decrease_key({next_node, next_node_distance});
@@ -535,7 +540,7 @@ namespace{
 			shorter_path_test.pin_source(in_node, node);
 			for(unsigned out_arc = 0; out_arc < graph.out_deg(node); ++out_arc){
 				unsigned out_node = graph.out(node, out_arc).node;
-				if(in_node != out_node){
+				if(in_node != out_node && graph.in(node, in_arc).weight + graph.out(node, out_arc).weight < inf_weight){
 					if(
 						!shorter_path_test.does_shorter_or_equal_path_to_target_exist(
 							out_node,
@@ -569,7 +574,7 @@ namespace{
 			shorter_path_test.pin_source(in_node, node_being_contracted);
 			for(unsigned out_arc = 0; out_arc < graph.out_deg(node_being_contracted); ++out_arc){
 				unsigned out_node = graph.out(node_being_contracted, out_arc).node;
-				if(in_node != out_node){
+				if(in_node != out_node && graph.in(node_being_contracted, in_arc).weight + graph.out(node_being_contracted, out_arc).weight < inf_weight){
 					if(
 						!shorter_path_test.does_shorter_or_equal_path_to_target_exist(
 							out_node,
-- 
2.43.0


From 87b29a2411782aebeb366fd091ff59e528d048b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:22 +0000
Subject: [PATCH 02/48] fix: allow pinning more targets or sources than there
 are nodes

A list with repeated nodes can be longer than the number of nodes, which
was written past the end of an internal array.
---
 src/contraction_hierarchy.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/contraction_hierarchy.cpp b/src/contraction_hierarchy.cpp
index 41b0536..3d133ec 100644
--- a/src/contraction_hierarchy.cpp
+++ b/src/contraction_hierarchy.cpp
@@ -1876,6 +1876,10 @@ namespace{
 	){
 		target_count = external_target_list.size();
 
+		// The list may contain nodes several times and thus be longer than node_count
+		if(target_list.size() < target_count)
+			target_list.resize(target_count);
+
 		for(unsigned i=0; i<target_count; ++i){
 			unsigned t = external_target_list[i];
 			t = external_node_to_internal_node[t];
-- 
2.43.0


From 6002d2adf181817c17f0ac01a4bc2a5a7aca9904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:03 +0000
Subject: [PATCH 03/48] fix: report incomplete writes and reads of vector files

Writing to a full device, saving strings to a file that can not be opened,
loading a string file whose last string is cut off and loading a bit vector
file that is too short for its header were silently accepted.
---
 include/routingkit/vector_io.h | 12 ++++++++++--
 src/vector_io.cpp              | 15 ++++++++++++++-
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/include/routingkit/vector_io.h b/include/routingkit/vector_io.h
index 4de32ad..014b463 100644
--- a/include/routingkit/vector_io.h
+++ b/include/routingkit/vector_io.h
@@ -18,7 +18,10 @@ void save_vector(const std::string&file_name, const std::vector<T>&vec){
 	std::ofstream out(file_name, std::ios::binary);
 	if(!out)
 		throw std::runtime_error("Can not open \""+file_name+"\" for writing.");
-	out.write(reinterpret_cast<const char*>(&vec[0]), vec.size()*sizeof(T));
+	out.write(reinterpret_cast<const char*>(vec.data()), vec.size()*sizeof(T));
+	out.close();
+	if(!out)
+		throw std::runtime_error("Could not write all data to \""+file_name+"\".");
 }
 
 template<class T>
@@ -33,7 +36,9 @@ std::vector<T>load_vector(const std::string&file_name){
 		throw std::runtime_error("File \""+file_name+"\" can not be a vector of the requested type because it's size is no multiple of the element type's size.");
 	in.seekg(0, std::ios::beg);
 	std::vector<T>vec(file_size / sizeof(T));
-	in.read(reinterpret_cast<char*>(&vec[0]), file_size);
+	in.read(reinterpret_cast<char*>(vec.data()), file_size);
+	if(!in)
+		throw std::runtime_error("Could not read all data from \""+file_name+"\".");
 	return vec; // NVRO
 }
 
@@ -158,6 +163,9 @@ void open_file_for_saving(const std::string&file_name, const F&f){
 	if(!out)
 		throw std::runtime_error("Can not open \""+file_name+"\" for writing.");
 	f(out);
+	out.close();
+	if(!out)
+		throw std::runtime_error("Could not write all data to \""+file_name+"\".");
 }
 
 template<class F>
diff --git a/src/vector_io.cpp b/src/vector_io.cpp
index 331cdd3..eaca893 100644
--- a/src/vector_io.cpp
+++ b/src/vector_io.cpp
@@ -5,10 +5,15 @@ namespace RoutingKit{
 template<>
 void save_vector<std::string>(const std::string&file_name, const std::vector<std::string>&vec){
 	std::ofstream out(file_name, std::ios::binary);
+	if(!out)
+		throw std::runtime_error("Can not open \""+file_name+"\" for writing.");
 	for(unsigned i=0; i<vec.size(); ++i){
 		const char*x = vec[i].c_str();
 		out.write(x, vec[i].length()+1);
 	}
+	out.close();
+	if(!out)
+		throw std::runtime_error("Could not write all data to \""+file_name+"\".");
 }
 
 template<>
@@ -30,6 +35,9 @@ std::vector<std::string>load_vector<std::string>(const std::string&file_name){
 		}
 	}
 
+	if(str_begin != data_end)
+		throw std::runtime_error("File \""+file_name+"\" can not be a vector of strings because its last string is not terminated.");
+
 	ret.shrink_to_fit();
 	return ret; // NVRO
 }
@@ -41,6 +49,9 @@ void save_bit_vector(const std::string&file_name, const BitVector&vec){
 	uint64_t size = vec.size();
 	out.write(reinterpret_cast<const char*>(&size), 8);
 	out.write(reinterpret_cast<const char*>(vec.data()), vec.uint512_count()*64);
+	out.close();
+	if(!out)
+		throw std::runtime_error("Could not write all data to \""+file_name+"\".");
 }
 
 BitVector load_bit_vector(const std::string&file_name){
@@ -53,10 +64,12 @@ BitVector load_bit_vector(const std::string&file_name){
 	
 	uint64_t size;
 	in.read(reinterpret_cast<char*>(&size), 8);
-	if(((size+511)/512) * 64 + 8 != file_size)
+	if(!in || (size/512 + (size%512 != 0)) * 64 + 8 != file_size)
 		throw std::runtime_error("File \""+file_name+"\" can not be a bit vector of the requested size because the size in the header and the file size do not correspond.");
 	BitVector vec(size);
 	in.read(reinterpret_cast<char*>(vec.data()), (((size+511)/512) * 64));
+	if(!in)
+		throw std::runtime_error("Could not read all data from \""+file_name+"\".");
 	return vec; // NVRO
 }
 
-- 
2.43.0


From 86775a68908124f8491052232f373ad2e388257b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:24 +0000
Subject: [PATCH 04/48] fix: compute the expected size of a CH file with 64 bit
 numbers

The size wrapped around for hierarchies with at least 2^30 arcs, so that
correct files were rejected and files with a damaged arc count accepted.
---
 src/contraction_hierarchy.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/contraction_hierarchy.cpp b/src/contraction_hierarchy.cpp
index 3d133ec..8980db8 100644
--- a/src/contraction_hierarchy.cpp
+++ b/src/contraction_hierarchy.cpp
@@ -1374,23 +1374,27 @@ namespace{
 ContractionHierarchy ContractionHierarchy::read(std::function<void(char*, unsigned long long)>in, unsigned long long file_size){
 	CHFileHeader header = read_value<CHFileHeader>(in);
 	check_header(header);
+	const unsigned long long
+		node_count = header.node_count,
+		forward_arc_count = header.forward_arc_count,
+		backward_arc_count = header.backward_arc_count;
 	unsigned long long expected_file_size = (
 		  sizeof(CHFileHeader)
 		+ sizeof(unsigned)*(
-			header.node_count
+			node_count
 			+ (
-				header.node_count+1 +
-				4*header.forward_arc_count
+				node_count+1 +
+				4*forward_arc_count
 
 			)
 			+ (
-				header.node_count+1 +
-				4*header.backward_arc_count
+				node_count+1 +
+				4*backward_arc_count
 
 			)
 		)
-		+ ((header.backward_arc_count+511)/512) * 64
-		+ ((header.forward_arc_count+511)/512) * 64
+		+ ((backward_arc_count+511)/512) * 64
+		+ ((forward_arc_count+511)/512) * 64
 	);
 	if(expected_file_size != file_size)
 		throw std::runtime_error("CH file has a different size than specified in the header. This file is corrupt.");
-- 
2.43.0


From dc3667dd03622b16014f87268e48e0d551ac5b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:35 +0000
Subject: [PATCH 05/48] fix: build a CCH without log callback or without nodes

---
 src/customizable_contraction_hierarchy.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index 04f29a3..07ec145 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -416,7 +416,7 @@ CustomizableContractionHierarchy::CustomizableContractionHierarchy(
 		log_message("Finished computing elimination tree, needed "+std::to_string(timer)+"musec");
 	}
 
-	if(log_message){
+	if(log_message && node_count != 0){
 		std::vector<unsigned>
 			nodes_in_search_space(node_count, 0),
 			arcs_in_search_space(node_count, 0);
@@ -449,10 +449,10 @@ CustomizableContractionHierarchy::CustomizableContractionHierarchy(
 	}
 
 	// filter up graph
-	if(!filter_always_inf_arcs)
-		log_message("Not filtering upward arcs");
-	else
-	{
+	if(!filter_always_inf_arcs){
+		if(log_message)
+			log_message("Not filtering upward arcs");
+	}else{
 		if(log_message){
 			log_message("Start filtering upward arcs");
 			timer = -get_micro_time();
-- 
2.43.0


From 41071a6ad153757970bcd64b32ffd10c5e8978ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:35 +0000
Subject: [PATCH 06/48] fix: leave the metric customized after a perfect
 witness search

---
 src/customizable_contraction_hierarchy.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index 07ec145..dfa7416 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -1727,6 +1727,10 @@ std::vector<unsigned> CustomizableContractionHierarchyQuery::get_distances_to_so
 ContractionHierarchy CustomizableContractionHierarchyMetric::build_contraction_hierarchy_using_perfect_witness_search(){
 	customize();
 
+	// The perfect customization below shortens the arcs in place. The path unpacking and the partial customization
+	// need the weights computed by customize and these are therefore restored at the end.
+	std::vector<unsigned>customized_forward = forward, customized_backward = backward;
+
 	BitVector
 		keep_forward_arc(cch->cch_arc_count(), true),
 		keep_backward_arc(cch->cch_arc_count(), true);
@@ -1885,6 +1889,9 @@ ContractionHierarchy CustomizableContractionHierarchyMetric::build_contraction_h
 		}
 	}
 
+	forward = std::move(customized_forward);
+	backward = std::move(customized_backward);
+
 	check_contraction_hierarchy_for_errors(ch);
 
 	return ch;
-- 
2.43.0


From 6e3a52aca50be77718302822ecc42f6dadedb801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:47 +0000
Subject: [PATCH 07/48] fix: do not mistake another CCH at the same address for
 the one a query was built for

---
 .../routingkit/customizable_contraction_hierarchy.h |  3 +++
 src/customizable_contraction_hierarchy.cpp          | 13 +++++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/routingkit/customizable_contraction_hierarchy.h b/include/routingkit/customizable_contraction_hierarchy.h
index 942d91c..f7f3a09 100644
--- a/include/routingkit/customizable_contraction_hierarchy.h
+++ b/include/routingkit/customizable_contraction_hierarchy.h
@@ -62,6 +62,8 @@ struct CustomizableContractionHierarchy{
 	
 	std::vector<unsigned>extra_forward_input_arc_of_cch;
 	std::vector<unsigned>extra_backward_input_arc_of_cch;
+
+	unsigned long long build_id = 0; // differs for every CCH that was built, copies have the same
 };
 
 struct CustomizableContractionHierarchyMetric{
@@ -171,6 +173,7 @@ struct CustomizableContractionHierarchyQuery{
 	unsigned shortest_path_meeting_node;
 
 	const CustomizableContractionHierarchy*cch;
+	unsigned long long cch_build_id;
 	const CustomizableContractionHierarchyMetric*metric;
 	unsigned state;
 };
diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index dfa7416..347e668 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -14,6 +14,7 @@
 #include <vector>
 #include <assert.h>
 #include <algorithm>
+#include <atomic>
 #include <stdexcept>
 #ifdef _OPENMP
 #include <omp.h>
@@ -22,6 +23,11 @@
 namespace RoutingKit{
 
 namespace{
+	unsigned long long get_next_cch_build_id(){
+		static std::atomic<unsigned long long>last_build_id(0);
+		return ++last_build_id;
+	}
+
 	template<class OnNewArc>
 	unsigned compute_chordal_supergraph(unsigned node_count, const std::vector<unsigned>&tail, const std::vector<unsigned>&head, const OnNewArc&on_new_arc){
 		std::vector<std::vector<unsigned>> nodes(node_count);
@@ -200,7 +206,8 @@ CustomizableContractionHierarchy::CustomizableContractionHierarchy(
 	std::function<void(const std::string&)>log_message,
 	bool filter_always_inf_arcs
 ):
-	order(std::move(arg_order))
+	order(std::move(arg_order)),
+	build_id(get_next_cch_build_id())
 {
 	unsigned node_count = order.size();
 	unsigned input_arc_count = input_tail.size();
@@ -1101,6 +1108,7 @@ CustomizableContractionHierarchyQuery::CustomizableContractionHierarchyQuery(con
 	in_backward_search_space(metric.cch->node_count(), false),
 	shortest_path_meeting_node(invalid_id),
 	cch(metric.cch),
+	cch_build_id(metric.cch->build_id),
 	metric(&metric),
 	state(query_state_initialized){}
 
@@ -1911,7 +1919,8 @@ CustomizableContractionHierarchyQuery& CustomizableContractionHierarchyQuery::re
 }
 
 CustomizableContractionHierarchyQuery& CustomizableContractionHierarchyQuery::reset(const CustomizableContractionHierarchyMetric&metric){
-	if(this->cch == metric.cch) {
+	// The address does not suffice, another CCH can have been constructed at the location of a destroyed one.
+	if(this->cch == metric.cch && this->cch_build_id == metric.cch->build_id) {
 		this->metric = &metric;
 		reset();
 	} else {
-- 
2.43.0


From d91298ed01e87cde7c3a4772d2ac7e8035a69d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:41 +0000
Subject: [PATCH 08/48] fix: keep all arcs needed to unpack shortcuts in a
 witness search on a filtered CCH

---
 src/customizable_contraction_hierarchy.cpp | 55 ++++++++++++++++++++--
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index 347e668..6cec2a7 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -1736,7 +1736,7 @@ ContractionHierarchy CustomizableContractionHierarchyMetric::build_contraction_h
 	customize();
 
 	// The perfect customization below shortens the arcs in place. The path unpacking and the partial customization
-	// need the weights computed by customize and these are therefore restored at the end.
+	// need the weights computed by customize and these are therefore restored afterwards.
 	std::vector<unsigned>customized_forward = forward, customized_backward = backward;
 
 	BitVector
@@ -1808,6 +1808,56 @@ ContractionHierarchy CustomizableContractionHierarchyMetric::build_contraction_h
 		);
 	#endif
 
+	forward = std::move(customized_forward);
+	backward = std::move(customized_backward);
+
+	// If always infinite arcs were filtered, then not every upper triangle exists and the above witness search is not
+	// perfect, i.e., it can remove an arc that is needed to unpack an arc that is not removed.
+	for(unsigned a=cch->cch_arc_count()-1; a!=(unsigned)-1; --a){
+		if(keep_forward_arc.is_set(a) && unpack_original_forward_arc(*cch, *this, a) == invalid_id){
+			unsigned needed_bottom_arc = invalid_id, needed_mid_arc = invalid_id;
+			bool is_unpackable = !forall_lower_triangles_of_arc(
+				*cch, a,
+				[&](
+					unsigned bottom_arc, unsigned mid_arc, unsigned top_arc,
+					unsigned, unsigned, unsigned
+				){
+					if(backward[bottom_arc] + forward[mid_arc] == forward[top_arc]){
+						needed_bottom_arc = bottom_arc;
+						needed_mid_arc = mid_arc;
+						return !(keep_backward_arc.is_set(bottom_arc) && keep_forward_arc.is_set(mid_arc));
+					}
+					return true;
+				}
+			);
+			if(!is_unpackable){
+				keep_backward_arc.set(needed_bottom_arc);
+				keep_forward_arc.set(needed_mid_arc);
+			}
+		}
+		if(keep_backward_arc.is_set(a) && unpack_original_backward_arc(*cch, *this, a) == invalid_id){
+			unsigned needed_bottom_arc = invalid_id, needed_mid_arc = invalid_id;
+			bool is_unpackable = !forall_lower_triangles_of_arc(
+				*cch, a,
+				[&](
+					unsigned bottom_arc, unsigned mid_arc, unsigned top_arc,
+					unsigned, unsigned, unsigned
+				){
+					if(forward[bottom_arc] + backward[mid_arc] == backward[top_arc]){
+						needed_bottom_arc = bottom_arc;
+						needed_mid_arc = mid_arc;
+						return !(keep_forward_arc.is_set(bottom_arc) && keep_backward_arc.is_set(mid_arc));
+					}
+					return true;
+				}
+			);
+			if(!is_unpackable){
+				keep_forward_arc.set(needed_bottom_arc);
+				keep_backward_arc.set(needed_mid_arc);
+			}
+		}
+	}
+
 	ContractionHierarchy ch;
 
 	ch.rank = cch->rank;
@@ -1897,9 +1947,6 @@ ContractionHierarchy CustomizableContractionHierarchyMetric::build_contraction_h
 		}
 	}
 
-	forward = std::move(customized_forward);
-	backward = std::move(customized_backward);
-
 	check_contraction_hierarchy_for_errors(ch);
 
 	return ch;
-- 
2.43.0


From 6182feb5b5007fe6abc483d2b14d01c7675737ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:12 +0000
Subject: [PATCH 09/48] fix: report an exception of the byte source without
 losing the wake up

The reading thread stored the exception and notified without holding the
lock. The consumer could check the condition just before and then wait
forever, and both threads accessed the exception pointer at the same time.
---
 src/buffered_asynchronous_reader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/buffered_asynchronous_reader.cpp b/src/buffered_asynchronous_reader.cpp
index 9ecc5c8..e0326b5 100644
--- a/src/buffered_asynchronous_reader.cpp
+++ b/src/buffered_asynchronous_reader.cpp
@@ -131,6 +131,8 @@ BufferedAsynchronousReader::BufferedAsynchronousReader(
 					ptr->worker_thread_has_done_something.notify_one();
 				}
 			}catch(...){
+				if(!guard.owns_lock())
+					guard.lock();
 				ptr->read_exception = std::current_exception();
 				ptr->worker_thread_has_done_something.notify_one();
 			}
-- 
2.43.0


From 8192beb01885fd7c94032ba4ddf6ddae274a0649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:12 +0000
Subject: [PATCH 10/48] fix: file data source size and move assignment

size() threw if fstat succeeded, and move assignment left the previously
open file open.
---
 src/file_data_source.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/file_data_source.cpp b/src/file_data_source.cpp
index 0ad4ed9..13d753a 100644
--- a/src/file_data_source.cpp
+++ b/src/file_data_source.cpp
@@ -37,8 +37,11 @@ FileDataSource::FileDataSource(FileDataSource&&o):
 }
 
 const FileDataSource&FileDataSource::operator=(FileDataSource&&o){
-	file_descriptor = o.file_descriptor;
-	o.file_descriptor = -1;
+	if(this != &o){
+		close();
+		file_descriptor = o.file_descriptor;
+		o.file_descriptor = -1;
+	}
 	return *this;
 }
 
@@ -73,7 +76,7 @@ unsigned long long FileDataSource::size()const{
 		return 0;
 	else{
 		struct ::stat buf;
-		if(!::fstat(file_descriptor, &buf)){
+		if(::fstat(file_descriptor, &buf) != 0){
 			int error = errno;
 			throw std::runtime_error(std::string("Could not determine the size of a file open for reading. The errno is ")+std::to_string(error)+". strerror(errno) says the following : "+strerror(error));
 		}
@@ -114,8 +117,11 @@ FileDataSource::FileDataSource(FileDataSource&&o):
 }
 
 const FileDataSource&FileDataSource::operator=(FileDataSource&&o){
-	file_descriptor = o.file_descriptor;
-	o.file_descriptor = nullptr;
+	if(this != &o){
+		close();
+		file_descriptor = o.file_descriptor;
+		o.file_descriptor = nullptr;
+	}
 	return *this;
 }
 
-- 
2.43.0


From e3e417ff662991ae2962dd75a68a14d164c4ec7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:26 +0000
Subject: [PATCH 11/48] fix: resize Dijkstra for the graph given to reset

The size was compared with the vector passed earlier, which may have been
modified or destroyed in the meantime.
---
 include/routingkit/dijkstra.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/routingkit/dijkstra.h b/include/routingkit/dijkstra.h
index 6a3d3e3..585f969 100644
--- a/include/routingkit/dijkstra.h
+++ b/include/routingkit/dijkstra.h
@@ -40,7 +40,7 @@ public:
 		assert(first_out.back() == tail.size());
 		assert(first_out.back() == head.size());
 
-		if(this->first_out != nullptr && first_out.size() == this->first_out->size()){
+		if(this->first_out != nullptr && first_out.size()-1 == tentative_distance.size()){
 			this->first_out = &first_out;
 			this->head = &head;
 			this->tail = &tail;
-- 
2.43.0


From 1ccce17efb0c39ec17c4cd247a74bb7f7e0f11ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:26 +0000
Subject: [PATCH 12/48] fix: popping an empty id set queue returns invalid_id
 as documented

---
 include/routingkit/id_set_queue.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/routingkit/id_set_queue.h b/include/routingkit/id_set_queue.h
index fc285aa..fd18133 100644
--- a/include/routingkit/id_set_queue.h
+++ b/include/routingkit/id_set_queue.h
@@ -169,7 +169,8 @@ public:
 	//! Returns the smallest ID in the queue and removes it.
 	//! Returns invalid_id if the queue is empty.
 	unsigned pop() {
-		assert(!empty());
+		if(empty())
+			return invalid_id;
 
 		unsigned ret = min_id;
 
-- 
2.43.0


From a6b05122fc9646eb6d4bde1723b5a1c7fffe9a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:45 +0000
Subject: [PATCH 13/48] fix: bit vectors whose size is a multiple of 512 and
 copies of empty ones

---
 src/bit_vector.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/bit_vector.cpp b/src/bit_vector.cpp
index 3d7d888..0ae2a75 100644
--- a/src/bit_vector.cpp
+++ b/src/bit_vector.cpp
@@ -116,6 +116,9 @@ namespace {
 		v8_uint64_t u = {0};
 
 		uint64_t x = size % 512;
+		if(x == 0)
+			return ~u; // the last block has no padding bits
+
 		uint8_t i = 0;
 		while(x >= 64){
 			u[i++] = ~0ull;
@@ -228,12 +231,16 @@ BitVector::~BitVector(){
 }
 
 BitVector::BitVector(const BitVector&o):
-	data_(static_cast<uint64_t*>(aligned_alloc(64, get_uint8_count(o.size_)))), size_(o.size_){
+	data_(nullptr), size_(o.size_){
+	assert(are_all_padding_bits_zero(o));
+
+	if(size_ == 0)
+		return;
+
+	data_ = static_cast<uint64_t*>(aligned_alloc(64, get_uint8_count(size_)));
 	if(data_ == nullptr)
 		throw std::bad_alloc();
 
-	assert(are_all_padding_bits_zero(o));
-
 	for(
 		v8_uint64_t*i = (v8_uint64_t*)data_, *j=(v8_uint64_t*)o.data_;
 		i<((v8_uint64_t*)data_)+get_v8_uint64_count(size_);
@@ -320,7 +327,7 @@ void BitVector::resize(uint64_t new_size, bool value){
 			if(value == false){
 				size_ = new_size;
 			} else {
-				((v8_uint64_t*)data_)[size_/512] |= get_padding_mask(new_size) & ~get_padding_mask(size_);
+				((v8_uint64_t*)data_)[get_v8_uint64_count(size_)-1] |= get_padding_mask(new_size) & ~get_padding_mask(size_);
 				size_ = new_size;
 			}
 		} else {
-- 
2.43.0


From e08d253779ca04e93196271ad7f365901449d8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:34 +0000
Subject: [PATCH 14/48] fix: filtering a vector must not move an element onto
 itself

---
 include/routingkit/filter.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/routingkit/filter.h b/include/routingkit/filter.h
index 78990d3..aa06c67 100644
--- a/include/routingkit/filter.h
+++ b/include/routingkit/filter.h
@@ -16,7 +16,8 @@ void inplace_keep_element_of_vector_if(const BitVector&keep_filter, std::vector<
 	uint64_t in = 0, out = 0, s = vec.size();
 	while(in != s){
 		if(keep_filter.is_set(in)){
-			vec[out] = std::move(vec[in]);
+			if(in != out)
+				vec[out] = std::move(vec[in]);
 			++out;
 		}
 		++in;
@@ -31,7 +32,8 @@ void inplace_remove_element_from_vector_if(const BitVector&remove_filter, std::v
 	uint64_t in = 0, out = 0, s = vec.size();
 	while(in != s){
 		if(!remove_filter.is_set(in)){
-			vec[out] = std::move(vec[in]);
+			if(in != out)
+				vec[out] = std::move(vec[in]);
 			++out;
 		}
 		++in;
-- 
2.43.0


From 6c5a4e4df13531b9333fbf804cebefbe6e588883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:34 +0000
Subject: [PATCH 15/48] fix: apply_permutation_to_possibly_invalid_elements_of
 keeps invalid ids

---
 include/routingkit/permutation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/routingkit/permutation.h b/include/routingkit/permutation.h
index 4863817..f476f8c 100644
--- a/include/routingkit/permutation.h
+++ b/include/routingkit/permutation.h
@@ -128,7 +128,7 @@ std::vector<unsigned> apply_permutation_to_possibly_invalid_elements_of(const st
 	assert(std::all_of(v.begin(), v.end(), [&](unsigned x){return x < p.size() || x == invalid_id;}) && "v has an out of bounds element");
 	
 	std::vector<unsigned> r = v;
-	inplace_apply_permutation_to_elements_of(p, r);
+	inplace_apply_permutation_to_possibly_invalid_elements_of(p, r);
 	return r; // NVRO
 }
 
-- 
2.43.0


From 2465bbce5bcc7fd9cee5d793e6b845603c1ddc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:07 +0000
Subject: [PATCH 16/48] fix: convert the first arc of an arc path to its node

---
 src/graph_util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_util.cpp b/src/graph_util.cpp
index fda7e37..c98d9f7 100644
--- a/src/graph_util.cpp
+++ b/src/graph_util.cpp
@@ -69,7 +69,7 @@ std::vector<unsigned>convert_node_path_to_arc_path(const std::vector<unsigned>&f
 std::vector<unsigned>convert_arc_path_to_node_path(unsigned source, const std::vector<unsigned>&head, std::vector<unsigned>path){
 	if(!path.empty()){
 		path.resize(path.size()+1);
-		for(unsigned i=path.size()-1; i>1; --i)
+		for(unsigned i=path.size()-1; i>0; --i)
 			path[i] = head[path[i-1]];
 		path[0] = source;
 	}
-- 
2.43.0


From 347197af9b1789ca647b51a922119faf9372bd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:07 +0000
Subject: [PATCH 17/48] fix: two-key sort permutations: drop assertions on the
 unsorted input and declare the documented variant

---
 include/routingkit/graph_util.h | 7 +++++++
 src/graph_util.cpp              | 6 ++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/routingkit/graph_util.h b/include/routingkit/graph_util.h
index 242a56b..3de05d2 100644
--- a/include/routingkit/graph_util.h
+++ b/include/routingkit/graph_util.h
@@ -38,6 +38,13 @@ std::vector<unsigned>compute_inverse_sort_permutation_first_by_left_then_by_righ
 	const std::vector<unsigned>&b
 );
 
+std::vector<unsigned>compute_sort_permutation_first_by_left_then_by_right_and_apply_sort_to_left(
+	unsigned a_count,
+	std::vector<unsigned>&a,
+	unsigned b_count,
+	const std::vector<unsigned>&b
+);
+
 
 std::vector<unsigned>compute_inverse_sort_permutation_first_by_tail_then_by_head(
 	unsigned node_count,
diff --git a/src/graph_util.cpp b/src/graph_util.cpp
index c98d9f7..542bec4 100644
--- a/src/graph_util.cpp
+++ b/src/graph_util.cpp
@@ -86,8 +86,7 @@ std::vector<unsigned>compute_inverse_sort_permutation_first_by_left_then_by_righ
 	const std::vector<unsigned>&b
 ){
 	auto p = compute_inverse_stable_sort_permutation_using_key(b, b_count, [](unsigned x){return x;});
-	auto q = compute_inverse_stable_sort_permutation_using_key(apply_inverse_permutation(p, std::move(a)), a_count, [](unsigned x){return x;});
-	assert(is_sorted_using_less(a));
+	auto q = compute_inverse_stable_sort_permutation_using_key(apply_inverse_permutation(p, a), a_count, [](unsigned x){return x;});
 	return chain_permutation_first_left_then_right(q, p);
 }
 
@@ -98,8 +97,7 @@ std::vector<unsigned>compute_sort_permutation_first_by_left_then_by_right(
 	const std::vector<unsigned>&b
 ){
 	auto p = compute_stable_sort_permutation_using_key(b, b_count, [](unsigned x){return x;});
-	auto q = compute_stable_sort_permutation_using_key(apply_permutation(p, std::move(a)), a_count, [](unsigned x){return x;});
-	assert(is_sorted_using_less(a));
+	auto q = compute_stable_sort_permutation_using_key(apply_permutation(p, a), a_count, [](unsigned x){return x;});
 	return chain_permutation_first_left_then_right(p, q);
 }
 
-- 
2.43.0


From 033a0b75327a944a641aade85e26407497bfe172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:47 +0000
Subject: [PATCH 18/48] fix: decomposing a fragment without nodes yields no
 components

---
 src/nested_dissection.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nested_dissection.cpp b/src/nested_dissection.cpp
index 7907c87..8f46ecb 100644
--- a/src/nested_dissection.cpp
+++ b/src/nested_dissection.cpp
@@ -699,6 +699,9 @@ std::vector<GraphFragment>decompose_graph_fragment_into_connected_components(Gra
 		part_list.push_back(std::move(part));
 	};
 
+	if(node_count == 0)
+		return part_list; // NVRO
+
 	unsigned component_node_begin = 0;
 	unsigned component_arc_begin = 0;
 	unsigned component_node_end = 1;
-- 
2.43.0


From 2677a9b7b65728aa0ca3636ed073285031b0a6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:47 +0000
Subject: [PATCH 19/48] fix: geographic distance of equal or opposite positions
 is a number

---
 include/routingkit/geo_dist.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/routingkit/geo_dist.h b/include/routingkit/geo_dist.h
index 0bf59bb..61d6d35 100644
--- a/include/routingkit/geo_dist.h
+++ b/include/routingkit/geo_dist.h
@@ -115,6 +115,13 @@ inline double geo_dist(double lat_a, double lon_a, double lat_b, double lon_b){
 
 	double len = (vec[0] + vec[1]) * vec[2] + vec[0] - vec[1];
 	len *= 0.5;
+
+	// Rounding can move the value slightly out of the range for which acos is defined, for example if both positions are the same.
+	if(len > 1.0)
+		len = 1.0;
+	if(len < -1.0)
+		len = -1.0;
+
 	len  = acos(len);
 	len *= earth_radius;
 
-- 
2.43.0


From 23bb014c98e0de7101d806cc478b02d4ffb2a34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:47 +0000
Subject: [PATCH 20/48] fix: build the nearest neighbor tree with double
 precision distances

---
 src/geo_position_to_node.cpp | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/geo_position_to_node.cpp b/src/geo_position_to_node.cpp
index d095f46..83da50e 100644
--- a/src/geo_position_to_node.cpp
+++ b/src/geo_position_to_node.cpp
@@ -47,12 +47,13 @@ namespace{
 
 			// Faster more complex vectorized code
 			{
-				const float pi = 3.14159265359;
-				const float R = 6371000.785; // earth radius in meter
-				const float inv_180 = 1.0 / 180;
+				// Single precision is not enough here: the error can reach several meters and near the antipodes of the pivot even kilometers.
+				const double pi = 3.14159265359;
+				const double R = 6371000.785; // earth radius in meter
+				const double inv_180 = 1.0 / 180;
 
-				float a_lat = d[mid].position.latitude;
-				float a_lon = d[mid].position.longitude;
+				double a_lat = d[mid].position.latitude;
+				double a_lon = d[mid].position.longitude;
 
 				a_lat *= inv_180;
 				a_lat *= pi;
@@ -62,9 +63,9 @@ namespace{
 				const unsigned vector_width = 16;
 				for(unsigned i=mid; i<end; i+=vector_width){
 
-					float b_lat[vector_width];
-					float b_lon[vector_width];
-					float a_[vector_width];
+					double b_lat[vector_width];
+					double b_lon[vector_width];
+					double a_[vector_width];
 
 					unsigned element_count = vector_width;
 					if(end - i < element_count)
@@ -89,16 +90,18 @@ namespace{
 						b_lon[j] *= inv_180;
 						b_lon[j] *= pi;
 
-						float dlat = b_lat[j] - a_lat;
-						float dlon = b_lon[j] - a_lon;
+						double dlat = b_lat[j] - a_lat;
+						double dlon = b_lon[j] - a_lon;
 
-						a_[j] = sinf(dlat*0.5) * sinf(dlat*0.5) + sinf(dlon*0.5) * sinf(dlon*0.5) * cosf(a_lat) * cosf(b_lat[j]);
+						a_[j] = sin(dlat*0.5) * sin(dlat*0.5) + sin(dlon*0.5) * sin(dlon*0.5) * cos(a_lat) * cos(b_lat[j]);
 					}
 
 					for(unsigned j=0; j<element_count; ++j){
-						// GCC5 does not have vectorized versions of atan2f nor sqrtf
+						// GCC5 does not have vectorized versions of atan2 nor sqrt
 						// we therefore call the sequential functions as they would prevent the vectorization of the previous loop
-						float c = 2 * atan2f(sqrtf(a_[j]), sqrtf(1-a_[j]));
+						if(a_[j] > 1.0)
+							a_[j] = 1.0;
+						double c = 2 * atan2(sqrt(a_[j]), sqrt(1-a_[j]));
 						d[i+j].distance_to_pivot = R * c;
 					}
 				}
-- 
2.43.0


From 4155da86c783d3e9735b442c506930e5d243ce9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:47 +0000
Subject: [PATCH 21/48] fix: reject varints that do not fit into 64 bit

---
 src/protobuf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/protobuf.cpp b/src/protobuf.cpp
index d14f799..e309d0f 100644
--- a/src/protobuf.cpp
+++ b/src/protobuf.cpp
@@ -13,7 +13,7 @@ uint64_t decode_varint_as_uint64_and_advance_first_parameter(const char*&begin,
 	uint8_t mask = ~high_bit;
 
 	while((*begin & high_bit) != 0){
-		if(shift == 7*9 && ((uint8_t)*begin) != (1|high_bit))
+		if(shift == 7*9)
 			throw std::runtime_error("Cannot decode varint because the value does not fit into 64 bit.");
 		n |= ((uint64_t)(((uint8_t)*begin) & mask))<<shift;
 		shift += 7;
@@ -21,6 +21,8 @@ uint64_t decode_varint_as_uint64_and_advance_first_parameter(const char*&begin,
 		if(begin == end)
 			throw std::runtime_error("Protobuf message is corrupt because varint was not terminated before the end of the message.");
 	}
+	if(shift == 7*9 && ((uint8_t)*begin) > 1)
+		throw std::runtime_error("Cannot decode varint because the value does not fit into 64 bit.");
 	n |= ((uint64_t)(((uint8_t)*begin) & mask)) << shift;
 	++begin;
 
-- 
2.43.0


From e61aebf89041d766d5cd70a0512cf832648169d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:47 +0000
Subject: [PATCH 22/48] fix: string ids equal to the string table size are out
 of bounds

---
 src/osm_decoder.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index b71b87e..144159e 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -365,13 +365,13 @@ namespace {
 					key_list.size(),
 					[&](uint64_t i){
 						i = key_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: key string ID is out of bounds.");
 						return string_table[i];
 					},
 					[&](uint64_t i){
 						i = value_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: value string ID is out of bounds.");
 						return string_table[i];
 					}
@@ -438,13 +438,13 @@ namespace {
 							key_list.size(),
 							[&](uint64_t i){
 								i = key_list[i];
-								if(i > string_table.size())
+								if(i >= string_table.size())
 									throw std::runtime_error("PBF error: key string ID is out of bounds.");
 								return string_table[i];
 							},
 							[&](uint64_t i){
 								i = value_list[i];
-								if(i > string_table.size())
+								if(i >= string_table.size())
 									throw std::runtime_error("PBF error: value string ID is out of bounds.");
 								return string_table[i];
 							}
@@ -508,13 +508,13 @@ namespace {
 					key_list.size(),
 					[&](uint64_t i){
 						i = key_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: key string ID is out of bounds.");
 						return string_table[i];
 					},
 					[&](uint64_t i){
 						i = value_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: value string ID is out of bounds.");
 						return string_table[i];
 					}
@@ -588,13 +588,13 @@ namespace {
 					key_list.size(),
 					[&](uint64_t i){
 						i = key_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: key string ID is out of bounds.");
 						return string_table[i];
 					},
 					[&](uint64_t i){
 						i = value_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: value string ID is out of bounds.");
 						return string_table[i];
 					}
-- 
2.43.0


From 972e1947323b703c4e3825740a11c3a294e0f79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:47 +0000
Subject: [PATCH 23/48] fix: decode OSM node positions and plain OSM nodes as
 the format defines them

---
 src/osm_decoder.cpp | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index 144159e..e99600c 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -285,9 +285,9 @@ namespace {
 					if(key_id == 17)
 						latlon_granularity = num;
 					else if(key_id == 19)
-						offset_of_latitude = zigzag_convert_uint64_to_int64(num);
+						offset_of_latitude = static_cast<int64_t>(num);
 					else if(key_id == 20)
-						offset_of_longitude = zigzag_convert_uint64_to_int64(num);
+						offset_of_longitude = static_cast<int64_t>(num);
 
 				},
 				[&](uint64_t key_id, double num){},
@@ -315,8 +315,8 @@ namespace {
 			if(latlon_granularity == 0)
 				throw std::runtime_error("PBF error: latlon_granularity of a block must not be zero.");
 
-			double primblock_lon_offset = 0.000000001 * offset_of_latitude;
-			double primblock_lat_offset = 0.000000001 * offset_of_longitude;
+			double primblock_lat_offset = 0.000000001 * offset_of_latitude;
+			double primblock_lon_offset = 0.000000001 * offset_of_longitude;
 			double primblock_granularity = 0.000000001 * latlon_granularity;
 
 			auto decode_sparse_node = [&](const char*begin, const char*end){
@@ -331,11 +331,11 @@ namespace {
 					begin, end,
 					[&](uint64_t key_id, uint64_t num){
 						if(key_id == 1)
-							osm_node_id = num;
-						else if(key_id == 19)
-							latitude = primblock_lon_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
-						else if(key_id == 20)
-							longitude = primblock_lat_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
+							osm_node_id = zigzag_convert_uint64_to_int64(num);
+						else if(key_id == 8)
+							latitude = primblock_lat_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
+						else if(key_id == 9)
+							longitude = primblock_lon_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
 					},
 					[&](uint64_t key_id, double num){},
 					[&](uint64_t key_id, const char*begin, const char*end){
@@ -418,11 +418,11 @@ namespace {
 				tag_map.clear();
 
 				uint64_t osm_node_id = 0;
-				double latitude = 0.0, longitude = 0.0;
+				int64_t latitude = 0, longitude = 0; // in units of the block's granularity
 				while(osm_node_id_begin != osm_node_id_end){
 					osm_node_id += zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(osm_node_id_begin, osm_node_id_end));
-					latitude += primblock_lon_offset + primblock_granularity * zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(latitude_begin, latitude_end));
-					longitude += primblock_lon_offset + primblock_granularity * zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(longitude_begin, longitude_end));
+					latitude += zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(latitude_begin, latitude_end));
+					longitude += zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(longitude_begin, longitude_end));
 					if(key_value_pairs_begin != nullptr){
 						key_list.clear();
 						value_list.clear();
@@ -450,7 +450,12 @@ namespace {
 							}
 						);
 					}
-					node_callback(osm_node_id, latitude, longitude, tag_map);
+					node_callback(
+						osm_node_id,
+						primblock_lat_offset + primblock_granularity * latitude,
+						primblock_lon_offset + primblock_granularity * longitude,
+						tag_map
+					);
 				}
 				if(latitude_begin != latitude_end)
 					throw std::runtime_error("PBF error: dense node latitude array has a different length than the node ID array.");
-- 
2.43.0


From 9768727d39d3dc798d26c9ebfc3b415966af2376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:47 +0000
Subject: [PATCH 24/48] fix: accept empty tag arrays of dense OSM nodes

---
 src/osm_decoder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index e99600c..6f5ee1f 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -417,13 +417,16 @@ namespace {
 
 				tag_map.clear();
 
+				// If no node has a tag then the array may be missing or empty.
+				const bool has_tags = key_value_pairs_begin != key_value_pairs_end;
+
 				uint64_t osm_node_id = 0;
 				int64_t latitude = 0, longitude = 0; // in units of the block's granularity
 				while(osm_node_id_begin != osm_node_id_end){
 					osm_node_id += zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(osm_node_id_begin, osm_node_id_end));
 					latitude += zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(latitude_begin, latitude_end));
 					longitude += zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(longitude_begin, longitude_end));
-					if(key_value_pairs_begin != nullptr){
+					if(has_tags){
 						key_list.clear();
 						value_list.clear();
 						for(;;){
-- 
2.43.0


From 55b3e8089c74932dbd9fb2191ce5cc60f1878e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:47 +0000
Subject: [PATCH 25/48] fix: uncompressed OSM blobs need not repeat their size

---
 src/osm_decoder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index 6f5ee1f..0d7b604 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -193,6 +193,8 @@ namespace{
 					throw std::runtime_error("PBF error: Blob must not contain both compressed and uncompressed data");
 				if(uncompressed_begin == nullptr && compressed_begin == nullptr)
 					throw std::runtime_error("PBF error: Blob contains neither compressed nor uncompressed data");
+				if(uncompressed_data_size == (uint64_t)-1 && uncompressed_begin != nullptr)
+					uncompressed_data_size = uncompressed_end - uncompressed_begin; // The size is only required for compressed data
 				if(uncompressed_data_size == (uint64_t)-1)
 					throw std::runtime_error("PBF error: Blob does not contain the size of the uncompressed data");
 				if(uncompressed_begin){
-- 
2.43.0


From 4a6dec31eaaa8c762d9fdd35a0dadd2f2110c2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:47 +0000
Subject: [PATCH 26/48] fix: report OSM PBF files that end within a block

---
 src/osm_decoder.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index 0d7b604..160518f 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -92,12 +92,15 @@ namespace{
 				const char*blob_begin, *blob_end;
 
 				for(;;){
-					char*p = reader.read(4);
+					// The file may only end between two blocks, but not within the four bytes of the header size.
+					char header_size_bytes[4];
+					char*p = reader.read(1);
 					if(p == nullptr)
 						return 0;
+					header_size_bytes[0] = *p;
+					memcpy(header_size_bytes+1, reader.read_or_throw(3), 3);
 
-
-					uint32_t header_size = ntohl(unaligned_load<uint32_t>(p));
+					uint32_t header_size = ntohl(unaligned_load<uint32_t>(header_size_bytes));
 
 					uint32_t data_size = (uint32_t)-1;
 
@@ -159,7 +162,7 @@ namespace{
 						else
 							status = is_header_info_available_bit | was_header_read_bit;
 					} else {
-						reader.read(data_size);
+						reader.read_or_throw(data_size);
 						continue;
 					}
 				}
-- 
2.43.0


From 67e0d11e4aa693dd2d812a310df1aeaed45decc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:47 +0000
Subject: [PATCH 27/48] fix: compare whole OSM PBF feature names

---
 src/osm_decoder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index 160518f..171249f 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -149,10 +149,10 @@ namespace{
 							[&](uint64_t key_id, double num){},
 							[&](uint64_t key_id, const char*str_begin, const char*str_end){
 								if(key_id == 4){ // must support
-									if(!std::equal(str_begin, str_end, "DenseNodes"))
+									if(std::string(str_begin, str_end) != "DenseNodes")
 										throw std::runtime_error("Required OSM PBF feature \""+std::string(str_begin, str_end)+"\" is unknown");
 								}else if(key_id == 5){ // may exploit
-									if(std::equal(str_begin, str_end, "Sort.Type_then_ID"))
+									if(std::string(str_begin, str_end) == "Sort.Type_then_ID")
 										is_ordered = true;
 								}
 							}
-- 
2.43.0


From bf61fe8f772dc254113177e966b103176d840ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:47 +0000
Subject: [PATCH 28/48] fix: ordered_read_osm_pbf must not wait forever for a
 header that never comes

---
 src/osm_decoder.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index 171249f..87248e4 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -77,6 +77,12 @@ namespace{
 			reader(data_source, 64<<20){
 		}
 
+		OsmPBFDecompressor&operator=(OsmPBFDecompressor&&o){
+			reader = std::move(o.reader);
+			status = o.status.load();
+			return *this;
+		}
+
 		unsigned long long minimum_read_size() const {
 			return (64 << 20);
 		}
@@ -89,6 +95,15 @@ namespace{
 			return [&](char*buffer, unsigned long long how_much_to_read)->unsigned long long{
 				assert(how_much_to_read >= minimum_read_size());
 
+				// Once this function returns or throws for the first time, it is clear whether there is a header.
+				// Somebody might be waiting for this information.
+				struct HeaderInfoGuard{
+					std::atomic<uint64_t>&status;
+					~HeaderInfoGuard(){
+						status |= is_header_info_available_bit;
+					}
+				}header_info_guard = {status};
+
 				const char*blob_begin, *blob_end;
 
 				for(;;){
@@ -243,7 +258,7 @@ namespace{
 			};
 		}
 	private:
-		uint64_t status;
+		std::atomic<uint64_t> status;
 		BufferedAsynchronousReader reader;
 	};
 }
-- 
2.43.0


From 46d8ef545ba8b066c25f725f1939d4e152495f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:47 +0000
Subject: [PATCH 29/48] fix: clearing a tag map removes its tags

---
 include/routingkit/tag_map.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/routingkit/tag_map.h b/include/routingkit/tag_map.h
index 2de6a27..2f1acc3 100644
--- a/include/routingkit/tag_map.h
+++ b/include/routingkit/tag_map.h
@@ -55,6 +55,8 @@ public:
 			entry_begin[x>>16] = 0;
 			entry_end[x>>16] = 0;
 		}
+		hash_element_list.clear();
+		entry.clear();
 	}
 
 	template<class GetKey, class GetValue>
-- 
2.43.0


From d68cd5d9398e4807bd8bcd5d045e838c3305e145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:28 +0000
Subject: [PATCH 30/48] fix: derive the via node of a turn restriction although
 several arcs leave it

A way that passes through the via node has two arcs leaving it. They were
counted as two different candidates and the restriction was dropped.
---
 src/osm_graph_builder.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/osm_graph_builder.cpp b/src/osm_graph_builder.cpp
index c5e0130..bcd058c 100644
--- a/src/osm_graph_builder.cpp
+++ b/src/osm_graph_builder.cpp
@@ -523,10 +523,10 @@ OSMRoutingGraph load_osm_routing_graph_from_pbf(
 						for(auto i=first_index_of_way[in->to_way]; i!=first_index_of_way[in->to_way+1]; ++i){
 							auto arc = index_to_arc[i];
 							if(is_head_of_from_way[tail[arc]]){
-								if(via_node != invalid_id){
-									second_via_node = tail[arc];
-								} else {
+								if(via_node == invalid_id){
 									via_node = tail[arc];
+								} else if(via_node != tail[arc]) {
+									second_via_node = tail[arc];
 								}
 							}
 						}
-- 
2.43.0


From 7c5080e94c5cd62644bfe30e5e2cde2e3f9cdd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:28 +0000
Subject: [PATCH 31/48] fix: go-straight restrictions must not forbid going
 straight

On a way that is open in both directions the opposite arcs of the way were
paired with each other. At inner nodes this forbade all turns including going
straight, and at the end of the way it demanded a u-turn.
---
 src/osm_graph_builder.cpp | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/osm_graph_builder.cpp b/src/osm_graph_builder.cpp
index bcd058c..b66d93c 100644
--- a/src/osm_graph_builder.cpp
+++ b/src/osm_graph_builder.cpp
@@ -490,24 +490,28 @@ OSMRoutingGraph load_osm_routing_graph_from_pbf(
 						++out;
 						++in;
 					} else if(in->from_way == in->to_way && in->category == OSMTurnRestrictionCategory::mandatory){
-						for(auto i=first_index_of_way[in->from_way]; i!=first_index_of_way[in->from_way+1]; ++i){
-							auto arc = index_to_arc[i];
-							incomming_arc_of_way_into_node[head[arc]] = arc;
-						}
+						// Both directions of the way are handled separately. Going straight never changes the direction.
+						for(bool is_antiparallel_to_way : {false, true}){
+							for(auto i=first_index_of_way[in->from_way]; i!=first_index_of_way[in->from_way+1]; ++i){
+								auto arc = index_to_arc[i];
+								if(routing_graph.is_arc_antiparallel_to_way[arc] == is_antiparallel_to_way)
+									incomming_arc_of_way_into_node[head[arc]] = arc;
+							}
 
-						for(auto i=first_index_of_way[in->from_way]; i!=first_index_of_way[in->from_way+1]; ++i){
-							auto out_arc = index_to_arc[i];
-							auto via_node = tail[out_arc];
-							auto in_arc = incomming_arc_of_way_into_node[via_node];
-							if(in_arc != invalid_id)
-								for(unsigned not_out_arc=first_out[via_node]; not_out_arc!=first_out[via_node+1]; ++not_out_arc)
-									if(not_out_arc != out_arc)
-										add_forbidden_turn(in_arc, not_out_arc);
-						}
+							for(auto i=first_index_of_way[in->from_way]; i!=first_index_of_way[in->from_way+1]; ++i){
+								auto out_arc = index_to_arc[i];
+								auto via_node = tail[out_arc];
+								auto in_arc = incomming_arc_of_way_into_node[via_node];
+								if(in_arc != invalid_id && routing_graph.is_arc_antiparallel_to_way[out_arc] == is_antiparallel_to_way)
+									for(unsigned not_out_arc=first_out[via_node]; not_out_arc!=first_out[via_node+1]; ++not_out_arc)
+										if(not_out_arc != out_arc)
+											add_forbidden_turn(in_arc, not_out_arc);
+							}
 
-						for(auto i=first_index_of_way[in->from_way]; i!=first_index_of_way[in->from_way+1]; ++i){
-							auto arc = index_to_arc[i];
-							incomming_arc_of_way_into_node[head[arc]] = invalid_id;
+							for(auto i=first_index_of_way[in->from_way]; i!=first_index_of_way[in->from_way+1]; ++i){
+								auto arc = index_to_arc[i];
+								incomming_arc_of_way_into_node[head[arc]] = invalid_id;
+							}
 						}
 						++in;
 						++go_straight_count;
-- 
2.43.0


From 92da011f645e6b493f21e5bd1fa006083686f462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:28 +0000
Subject: [PATCH 32/48] fix: compute OSM travel times in 64 bits

The intermediate result overflowed for arcs longer than 238 km.
---
 src/osm_extract.cpp | 13 ++++++++-----
 src/osm_simple.cpp  | 12 ++++++++----
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/osm_extract.cpp b/src/osm_extract.cpp
index 3a46833..575044d 100644
--- a/src/osm_extract.cpp
+++ b/src/osm_extract.cpp
@@ -4,8 +4,9 @@
 #include <routingkit/timer.h>
 #include <routingkit/tag_map.h>
 #include <routingkit/id_mapper.h>
+#include <routingkit/constants.h>
 
-
+#include <algorithm>
 #include <iostream>
 #include <string>
 #include <exception>
@@ -93,11 +94,13 @@ int main(int argc, char*argv[]){
 
 		unsigned arc_count  = routing_graph.arc_count();
 
-		std::vector<uint32_t>travel_time = routing_graph.geo_distance;
+		std::vector<uint32_t>travel_time(arc_count);
 		for(unsigned a=0; a<arc_count; ++a){
-			travel_time[a] *= 18000;
-			travel_time[a] /= way_speed[routing_graph.way[a]];
-			travel_time[a] /= 5;
+			uint64_t arc_travel_time = routing_graph.geo_distance[a];
+			arc_travel_time *= 18000;
+			arc_travel_time /= way_speed[routing_graph.way[a]];
+			arc_travel_time /= 5;
+			travel_time[a] = std::min<uint64_t>(arc_travel_time, inf_weight);
 		}
 
 		{
diff --git a/src/osm_simple.cpp b/src/osm_simple.cpp
index 5410e1f..6282c25 100644
--- a/src/osm_simple.cpp
+++ b/src/osm_simple.cpp
@@ -1,7 +1,9 @@
 #include <routingkit/osm_graph_builder.h>
 #include <routingkit/osm_profile.h>
 #include <routingkit/osm_simple.h>
+#include <routingkit/constants.h>
 
+#include <algorithm>
 #include <vector>
 #include <stdint.h>
 #include <string>
@@ -49,11 +51,13 @@ SimpleOSMCarRoutingGraph simple_load_osm_car_routing_graph_from_pbf(
 	ret.latitude = std::move(routing_graph.latitude);
 	ret.longitude = std::move(routing_graph.longitude);
 
-	ret.travel_time = ret.geo_distance;
+	ret.travel_time.resize(ret.geo_distance.size());
 	for(unsigned a=0; a<ret.travel_time.size(); ++a){
-		ret.travel_time[a] *= 18000;
-		ret.travel_time[a] /= way_speed[routing_graph.way[a]];
-		ret.travel_time[a] /= 5;
+		uint64_t travel_time = ret.geo_distance[a];
+		travel_time *= 18000;
+		travel_time /= way_speed[routing_graph.way[a]];
+		travel_time /= 5;
+		ret.travel_time[a] = std::min<uint64_t>(travel_time, inf_weight);
 	}
 
 	ret.forbidden_turn_from_arc = std::move(routing_graph.forbidden_turn_from_arc);
-- 
2.43.0


From b0c7f817f8b1b186218ae217fff91e7724a7635e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:28 +0000
Subject: [PATCH 33/48] fix: large maxspeed numbers must not overflow

---
 src/osm_profile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/osm_profile.cpp b/src/osm_profile.cpp
index 121cb4f..6b3807a 100644
--- a/src/osm_profile.cpp
+++ b/src/osm_profile.cpp
@@ -1,5 +1,7 @@
 #include <routingkit/osm_profile.h>
 
+#include <algorithm>
+
 namespace RoutingKit{
 
 namespace{
@@ -337,6 +339,7 @@ namespace{
 			while('0' <= *maxspeed && *maxspeed <= '9'){
 				speed *= 10;
 				speed += *maxspeed - '0';
+				speed = std::min(speed, 1000000u); // avoid integer overflows
 				++maxspeed;
 			}
 			while(*maxspeed == ' ')
-- 
2.43.0


From 05aabadf3f9326b1c7a4f08a9031dcf35bba9fe3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:33:50 +0000
Subject: [PATCH 34/48] fix: command line tools must report failure in their
 exit status

---
 src/compare_vector.cpp                      | 1 +
 src/compute_contraction_hierarchy.cpp       | 1 +
 src/compute_geographic_distance_weights.cpp | 1 +
 src/compute_nested_dissection_order.cpp     | 1 +
 src/convert_road_dimacs_coordinates.cpp     | 1 +
 src/convert_road_dimacs_graph.cpp           | 1 +
 src/decode_vector.cpp                       | 1 +
 src/encode_vector.cpp                       | 1 +
 src/examine_ch.cpp                          | 1 +
 src/export_road_dimacs_graph.cpp            | 1 +
 src/generate_constant_vector.cpp            | 1 +
 src/generate_dijkstra_rank_test_queries.cpp | 1 +
 src/generate_random_node_list.cpp           | 1 +
 src/generate_random_source_times.cpp        | 1 +
 src/generate_test_queries.cpp               | 1 +
 src/graph_to_dot.cpp                        | 1 +
 src/graph_to_svg.cpp                        | 1 +
 src/osm_extract.cpp                         | 1 +
 src/randomly_permute_nodes.cpp              | 1 +
 src/run_contraction_hierarchy_query.cpp     | 1 +
 src/run_dijkstra.cpp                        | 1 +
 src/show_path.cpp                           | 1 +
 22 files changed, 22 insertions(+)

diff --git a/src/compare_vector.cpp b/src/compare_vector.cpp
index 27dc416..18b1525 100644
--- a/src/compare_vector.cpp
+++ b/src/compare_vector.cpp
@@ -133,5 +133,6 @@ int main(int argc, char*argv[]){
 			throw runtime_error("Unknown data type \""+data_type+"\"");
 	}catch(exception&err){
 		cerr << "Stopped on exception : " << err.what() << endl;
+		return 1;
 	}
 }
diff --git a/src/compute_contraction_hierarchy.cpp b/src/compute_contraction_hierarchy.cpp
index a16b4e2..0b38dad 100644
--- a/src/compute_contraction_hierarchy.cpp
+++ b/src/compute_contraction_hierarchy.cpp
@@ -66,6 +66,7 @@ int main(int argc, char*argv[]){
 
 	}catch(exception&err){
 		cerr << "Stopped on exception : " << err.what() << endl;
+		return 1;
 	}
 }
 
diff --git a/src/compute_geographic_distance_weights.cpp b/src/compute_geographic_distance_weights.cpp
index b137ad9..458fbc2 100644
--- a/src/compute_geographic_distance_weights.cpp
+++ b/src/compute_geographic_distance_weights.cpp
@@ -69,6 +69,7 @@ int main(int argc, char*argv[]){
 
 	}catch(exception&err){
 		cerr << "Stopped on exception : " << err.what() << endl;
+		return 1;
 	}
 }
 
diff --git a/src/compute_nested_dissection_order.cpp b/src/compute_nested_dissection_order.cpp
index e82de6f..53ee90b 100644
--- a/src/compute_nested_dissection_order.cpp
+++ b/src/compute_nested_dissection_order.cpp
@@ -56,6 +56,7 @@ int main(int argc, char*argv[]){
 		
 	}catch(exception&err){
 		cerr << "Stopped on exception : " << err.what() << endl;
+		return 1;
 	}
 }
 
diff --git a/src/convert_road_dimacs_coordinates.cpp b/src/convert_road_dimacs_coordinates.cpp
index 110aef3..8138246 100644
--- a/src/convert_road_dimacs_coordinates.cpp
+++ b/src/convert_road_dimacs_coordinates.cpp
@@ -101,5 +101,6 @@ int main(int argc, char*argv[]){
 
 	}catch(exception&err){
 		cerr << "Stopped on exception : " << err.what() << endl;
+		return 1;
 	}
 }
diff --git a/src/convert_road_dimacs_graph.cpp b/src/convert_road_dimacs_graph.cpp
index 0d06d2b..8d5fda3 100644
--- a/src/convert_road_dimacs_graph.cpp
+++ b/src/convert_road_dimacs_graph.cpp
@@ -110,5 +110,6 @@ int main(int argc, char*argv[]){
 
 	}catch(exception&err){
 		cerr << "Stopped on exception : " << err.what() << endl;
+		return 1;
 	}
 }
diff --git a/src/decode_vector.cpp b/src/decode_vector.cpp
index ab8afe2..4346708 100644
--- a/src/decode_vector.cpp
+++ b/src/decode_vector.cpp
@@ -83,5 +83,6 @@ int main(int argc, char*argv[]){
 			throw runtime_error("Unknown data type \""+data_type+"\"");
 	}catch(exception&err){
 		cerr << "Stopped on exception : "<< err.what() << endl;
+		return 1;
 	}
 }
diff --git a/src/encode_vector.cpp b/src/encode_vector.cpp
index 4f25cb6..2938060 100644
--- a/src/encode_vector.cpp
+++ b/src/encode_vector.cpp
@@ -111,5 +111,6 @@ int main(int argc, char*argv[]){
 			throw runtime_error("Unknown data type \""+data_type+"\"");
 	}catch(exception&err){
 		cerr << "Stopped on exception : "<< err.what() << endl;
+		return 1;
 	}
 }
diff --git a/src/examine_ch.cpp b/src/examine_ch.cpp
index d6be09a..4a6bf66 100644
--- a/src/examine_ch.cpp
+++ b/src/examine_ch.cpp
@@ -42,5 +42,6 @@ int main(int argc, char*argv[]){
 		cout << "backward_ch_arc_count : "<< ch.backward.head.size() << endl;
 	}catch(exception&err){
 		cerr << "Stopped on exception : " << err.what() << endl;
+		return 1;
 	}
 }
diff --git a/src/export_road_dimacs_graph.cpp b/src/export_road_dimacs_graph.cpp
index 1f13460..be6169c 100644
--- a/src/export_road_dimacs_graph.cpp
+++ b/src/export_road_dimacs_graph.cpp
@@ -72,6 +72,7 @@ int main(int argc, char*argv[]){
 
 	}catch(exception&err){
 		cerr << "Stopped on exception : " << err.what() << endl;
+		return 1;
 	}
 }
 
diff --git a/src/generate_constant_vector.cpp b/src/generate_constant_vector.cpp
index c46b04a..f8ba6bb 100644
--- a/src/generate_constant_vector.cpp
+++ b/src/generate_constant_vector.cpp
@@ -38,6 +38,7 @@ int main(int argc, char*argv[]){
 		cout << "done" << endl;
 	}catch(exception&err){
 		cerr << "Stopped on exception : " << err.what() << endl;
+		return 1;
 	}
 }
 
diff --git a/src/generate_dijkstra_rank_test_queries.cpp b/src/generate_dijkstra_rank_test_queries.cpp
index 5af385f..c7abae4 100644
--- a/src/generate_dijkstra_rank_test_queries.cpp
+++ b/src/generate_dijkstra_rank_test_queries.cpp
@@ -105,6 +105,7 @@ int main(int argc, char*argv[]){
 		cout << "done" << endl;
 	}catch(exception&err){
 		cerr << "Stopped on exception : " << err.what() << endl;
+		return 1;
 	}
 }
 
diff --git a/src/generate_random_node_list.cpp b/src/generate_random_node_list.cpp
index 06673c9..f2355cb 100644
--- a/src/generate_random_node_list.cpp
+++ b/src/generate_random_node_list.cpp
@@ -49,6 +49,7 @@ int main(int argc, char*argv[]){
 		cout << "done" << endl;
 	}catch(exception&err){
 		cerr << "Stopped on exception : " << err.what() << endl;
+		return 1;
 	}
 }
 
diff --git a/src/generate_random_source_times.cpp b/src/generate_random_source_times.cpp
index a65e009..4e99afb 100644
--- a/src/generate_random_source_times.cpp
+++ b/src/generate_random_source_times.cpp
@@ -49,6 +49,7 @@ int main(int argc, char*argv[]){
 		cout << "done" << endl;
 	}catch(exception&err){
 		cerr << "Stopped on exception : " << err.what() << endl;
+		return 1;
 	}
 }
 
diff --git a/src/generate_test_queries.cpp b/src/generate_test_queries.cpp
index 8883798..7141fe0 100644
--- a/src/generate_test_queries.cpp
+++ b/src/generate_test_queries.cpp
@@ -51,6 +51,7 @@ int main(int argc, char*argv[]){
 		cout << "done" << endl;
 	}catch(exception&err){
 		cerr << "Stopped on exception : " << err.what() << endl;
+		return 1;
 	}
 }
 
diff --git a/src/graph_to_dot.cpp b/src/graph_to_dot.cpp
index 12ff15f..c7742b3 100644
--- a/src/graph_to_dot.cpp
+++ b/src/graph_to_dot.cpp
@@ -54,6 +54,7 @@ int main(int argc, char*argv[]){
 
 	}catch(exception&err){
 		cerr << "Stopped on exception : " << err.what() << endl;
+		return 1;
 	}
 }
 
diff --git a/src/graph_to_svg.cpp b/src/graph_to_svg.cpp
index 1fc6480..c7d890d 100644
--- a/src/graph_to_svg.cpp
+++ b/src/graph_to_svg.cpp
@@ -80,6 +80,7 @@ int main(int argc, char*argv[]){
 
 	}catch(exception&err){
 		cerr << "Stopped on exception : " << err.what() << endl;
+		return 1;
 	}
 }
 
diff --git a/src/osm_extract.cpp b/src/osm_extract.cpp
index 575044d..83daa23 100644
--- a/src/osm_extract.cpp
+++ b/src/osm_extract.cpp
@@ -143,5 +143,6 @@ int main(int argc, char*argv[]){
 		}
 	} catch(std::exception&err) {
 		cout << "Exception : "<< err.what() << endl;
+		return 1;
 	}
 }
diff --git a/src/randomly_permute_nodes.cpp b/src/randomly_permute_nodes.cpp
index d0e183c..a38ce30 100644
--- a/src/randomly_permute_nodes.cpp
+++ b/src/randomly_permute_nodes.cpp
@@ -93,6 +93,7 @@ int main(int argc, char*argv[]){
 
 	}catch(exception&err){
 		cerr << "Stopped on exception : " << err.what() << endl;
+		return 1;
 	}
 }
 
diff --git a/src/run_contraction_hierarchy_query.cpp b/src/run_contraction_hierarchy_query.cpp
index ff3ff84..afd1eb4 100644
--- a/src/run_contraction_hierarchy_query.cpp
+++ b/src/run_contraction_hierarchy_query.cpp
@@ -73,6 +73,7 @@ int main(int argc, char*argv[]){
 
 	}catch(exception&err){
 		cerr << "Stopped on exception : " << err.what() << endl;
+		return 1;
 	}
 }
 
diff --git a/src/run_dijkstra.cpp b/src/run_dijkstra.cpp
index 0115a6a..f18ef65 100644
--- a/src/run_dijkstra.cpp
+++ b/src/run_dijkstra.cpp
@@ -112,6 +112,7 @@ int main(int argc, char*argv[]){
 
 	}catch(exception&err){
 		cerr << "Stopped on exception : " << err.what() << endl;
+		return 1;
 	}
 }
 
diff --git a/src/show_path.cpp b/src/show_path.cpp
index 8bc072c..acc5728 100644
--- a/src/show_path.cpp
+++ b/src/show_path.cpp
@@ -71,6 +71,7 @@ int main(int argc, char*argv[]){
 		}
 	}catch(exception&err){
 		cerr << "Stopped on exception : " << err.what() << endl;
+		return 1;
 	}
 }
 
-- 
2.43.0


From a1f074c9adefdecadcfb8a63b8463faec31380b2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:33:50 +0000
Subject: [PATCH 35/48] fix: decoding and encoding a vector must give back its
 elements

8 bit integers were printed as characters, floating point numbers with one
digit too few and an escaped backslash in front of an n was read as newline.
---
 src/decode_vector.cpp |  2 +-
 src/encode_vector.cpp | 20 ++++++++++++--------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/decode_vector.cpp b/src/decode_vector.cpp
index 4346708..f4dce93 100644
--- a/src/decode_vector.cpp
+++ b/src/decode_vector.cpp
@@ -13,7 +13,7 @@ void convert_num_data(const string&input_vector_file){
 	vector<T>v = load_vector<T>(input_vector_file);
 
 	for(auto&x:v)
-		cout << std::setprecision(std::numeric_limits<T>::digits10+1) << x << '\n';
+		cout << std::setprecision(std::numeric_limits<T>::max_digits10) << +x << '\n'; // The unary + makes sure that chars are printed as numbers
 }
 
 string replace_all_substrings(string subject, const string& search, const string& replace) {
diff --git a/src/encode_vector.cpp b/src/encode_vector.cpp
index 2938060..9a7489c 100644
--- a/src/encode_vector.cpp
+++ b/src/encode_vector.cpp
@@ -42,20 +42,24 @@ void convert_uint64_data(const string&output_vector_file){
 	save_vector(output_vector_file, v);
 }
 
-string replace_all_substrings(string subject, const string& search, const string& replace) {
-    size_t pos = 0;
-    while ((pos = subject.find(search, pos)) != std::string::npos) {
-         subject.replace(pos, search.length(), replace);
-         pos += replace.length();
-    }
-    return subject;
+string unescape(const string&line){
+	string r;
+	for(size_t i=0; i<line.size(); ++i){
+		if(line[i] == '\\' && i+1 < line.size() && (line[i+1] == '\\' || line[i+1] == 'n')){
+			++i;
+			r += line[i] == 'n' ? '\n' : '\\';
+		}else{
+			r += line[i];
+		}
+	}
+	return r;
 }
 
 void convert_string_data(const string&output_vector_file){
 	string line;
 	vector<string>v;
 	while(getline(cin, line)){
-		v.push_back(replace_all_substrings(replace_all_substrings(line, "\\\\", "\\"), "\\n", "\n"));
+		v.push_back(unescape(line));
 	}
 	save_vector(output_vector_file, v);
 }
-- 
2.43.0


From fd920e0b752bf6e9ac33abba11425c931cb3deb3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:33:50 +0000
Subject: [PATCH 36/48] fix: encode_vector must refuse lines that are not a
 number

---
 src/encode_vector.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/encode_vector.cpp b/src/encode_vector.cpp
index 9a7489c..39af33b 100644
--- a/src/encode_vector.cpp
+++ b/src/encode_vector.cpp
@@ -8,12 +8,19 @@ using namespace RoutingKit;
 using namespace std;
 
 
+void check_that_whole_line_was_parsed(const string&line, size_t parsed_length){
+	if(line.find_first_not_of(" \t\r", parsed_length) != string::npos)
+		throw runtime_error("The line \""+line+"\" contains more than a number");
+}
+
 template<class T>
 void convert_int_data(const string&output_vector_file){
 	string line;
 	vector<T>v;
 	while(getline(cin, line)){
-		long long x = stoll(line);
+		size_t parsed_length;
+		long long x = stoll(line, &parsed_length);
+		check_that_whole_line_was_parsed(line, parsed_length);
 		if(x < numeric_limits<T>::min())
 			throw runtime_error("The number \""+line+"\" is too small, min is \""+to_string(numeric_limits<T>::min())+"\"");
 		if(x > numeric_limits<T>::max())
@@ -28,7 +35,9 @@ void convert_float_data(const string&output_vector_file){
 	string line;
 	vector<T>v;
 	while(getline(cin, line)){
-		v.push_back(stold(line));
+		size_t parsed_length;
+		v.push_back(stold(line, &parsed_length));
+		check_that_whole_line_was_parsed(line, parsed_length);
 	}
 	save_vector(output_vector_file, v);
 }
@@ -37,7 +46,11 @@ void convert_uint64_data(const string&output_vector_file){
 	string line;
 	vector<unsigned long long>v;
 	while(getline(cin, line)){
-		v.push_back(stoull(line));
+		if(line.find('-') != string::npos)
+			throw runtime_error("The number \""+line+"\" is too small, min is \"0\"");
+		size_t parsed_length;
+		v.push_back(stoull(line, &parsed_length));
+		check_that_whole_line_was_parsed(line, parsed_length);
 	}
 	save_vector(output_vector_file, v);
 }
-- 
2.43.0


From 857bf6f42dfba117afc14be1c34ebac10c1efe84 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:34:29 +0000
Subject: [PATCH 37/48] fix: the DIMACS converters must refuse files without
 header and lines with extra or negative numbers

---
 src/convert_road_dimacs_coordinates.cpp |  7 +++++--
 src/convert_road_dimacs_graph.cpp       | 11 +++++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/convert_road_dimacs_coordinates.cpp b/src/convert_road_dimacs_coordinates.cpp
index 8138246..c61b1d3 100644
--- a/src/convert_road_dimacs_coordinates.cpp
+++ b/src/convert_road_dimacs_coordinates.cpp
@@ -39,7 +39,7 @@ int main(int argc, char*argv[]){
 		unsigned line_num = 0;
 
 		vector<float>latitude, longitude;
-		unsigned node_count;
+		unsigned node_count = 0;
 
 		bool was_header_read = false;
 		std::vector<bool>seen;
@@ -57,7 +57,7 @@ int main(int argc, char*argv[]){
 				if(!(lin>>b) || b != "p" || !(lin>>b) || b != "aux" || !(lin>>b) || b != "sp" || !(lin>>b) || b != "co")
 					throw std::runtime_error("Header broken in line "+std::to_string(line_num));
 
-				if(!(lin>>node_count))
+				if(!(lin>>node_count) || line.find('-') != std::string::npos)
 					throw std::runtime_error("Header missing size");
 				if(lin >> b)
 					throw std::runtime_error("The header in line "+std::to_string(line_num)+" contains extra charachters at the end of the line");
@@ -88,6 +88,9 @@ int main(int argc, char*argv[]){
 			}
 		}
 
+		if(!was_header_read)
+			throw std::runtime_error("The dimacs file contains no header.");
+
 		for(unsigned i=0; i<node_count; ++i)
 			if(!seen[i])
 				throw runtime_error("Position for node "+std::to_string(i)+" is missing");
diff --git a/src/convert_road_dimacs_graph.cpp b/src/convert_road_dimacs_graph.cpp
index 8d5fda3..4718682 100644
--- a/src/convert_road_dimacs_graph.cpp
+++ b/src/convert_road_dimacs_graph.cpp
@@ -42,7 +42,7 @@ int main(int argc, char*argv[]){
 		unsigned next_arc = 0;
 
 		vector<unsigned>tail, head, weight;
-		unsigned node_count, arc_count;
+		unsigned node_count = 0, arc_count = 0;
 
 		bool was_header_read = false;
 		while(std::getline(in, line)){
@@ -58,15 +58,19 @@ int main(int argc, char*argv[]){
 					throw std::runtime_error("Can not parse header in dimacs file.");
 				if(p != "p" || sp != "sp")
 					throw std::runtime_error("Invalid header in dimacs file.");
+				if((lin >> sp) || line.find('-') != std::string::npos)
+					throw std::runtime_error("Invalid header in dimacs file.");
 
 				tail.resize(arc_count);
 				head.resize(arc_count);
 				weight.resize(arc_count);
 			}else{
-				std::string a;
+				std::string a, extra;
 				unsigned h, t, w;
 				if(!(lin >> a >> t >> h >> w))
 					throw std::runtime_error("Can not parse line num "+std::to_string(line_num)+" \""+line+"\" in dimacs file.");
+				if((lin >> extra) || line.find('-') != std::string::npos)
+					throw std::runtime_error("Can not parse line num "+std::to_string(line_num)+" \""+line+"\" in dimacs file.");
 				--h;
 				--t;
 				if(a != "a" || h >= node_count || t >= node_count)
@@ -80,6 +84,9 @@ int main(int argc, char*argv[]){
 			}
 		}
 
+		if(!was_header_read)
+			throw std::runtime_error("The dimacs file contains no header.");
+
 		if(next_arc != arc_count)
 			throw std::runtime_error("The arc count in the header ("+to_string(arc_count)+") does not correspond with the actual number of arcs ("+to_string(next_arc)+").");
 
-- 
2.43.0


From fc3e47c7f66f6329feaa2cd6f7402e9fb91fbb8d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:34:48 +0000
Subject: [PATCH 38/48] fix: osm_extract must not read the longest arc of a
 graph without arcs

---
 src/osm_extract.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osm_extract.cpp b/src/osm_extract.cpp
index 83daa23..fd63df4 100644
--- a/src/osm_extract.cpp
+++ b/src/osm_extract.cpp
@@ -103,7 +103,7 @@ int main(int argc, char*argv[]){
 			travel_time[a] = std::min<uint64_t>(arc_travel_time, inf_weight);
 		}
 
-		{
+		if(arc_count != 0){
 			unsigned max_arc = invalid_id;
 			unsigned max_travel_time = 0;
 			for(unsigned a=0; a<arc_count; ++a){
-- 
2.43.0


From bd5714a27af4b62a7b96e00be32144ca6df6f974 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:34:48 +0000
Subject: [PATCH 39/48] fix: the query tools must refuse node ids outside of
 the graph and accept empty query lists

---
 src/run_contraction_hierarchy_query.cpp | 8 +++++++-
 src/run_dijkstra.cpp                    | 8 +++++---
 src/show_path.cpp                       | 7 +++++--
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/run_contraction_hierarchy_query.cpp b/src/run_contraction_hierarchy_query.cpp
index afd1eb4..250894c 100644
--- a/src/run_contraction_hierarchy_query.cpp
+++ b/src/run_contraction_hierarchy_query.cpp
@@ -42,6 +42,11 @@ int main(int argc, char*argv[]){
 
 		cout << "done" << endl;
 
+		if(source.size() != target.size())
+			throw runtime_error("The source and target vectors must be of the same length.");
+		if(!source.empty() && (max_element_of(source) >= ch.node_count() || max_element_of(target) >= ch.node_count()))
+			throw runtime_error("The test queries contain an out-of-bounds node id.");
+
 		const unsigned query_count = source.size();
 
 		cout << "Loaded " << query_count << " test queries" << endl;
@@ -67,7 +72,8 @@ int main(int argc, char*argv[]){
 		cout << "done" << endl;
 
 		cout << "max running time : " << time_max << "musec" << endl;
-		cout << "avg running time : " << time_sum/query_count << "musec" << endl;
+		if(query_count != 0)
+			cout << "avg running time : " << time_sum/query_count << "musec" << endl;
 
 		save_vector(distance_file, distance);
 
diff --git a/src/run_dijkstra.cpp b/src/run_dijkstra.cpp
index f18ef65..9baad4a 100644
--- a/src/run_dijkstra.cpp
+++ b/src/run_dijkstra.cpp
@@ -56,7 +56,7 @@ int main(int argc, char*argv[]){
 			throw runtime_error("The first element of first out must be 0.");
 		if(first_out.back() != arc_count)
 			throw runtime_error("The last element of first out must be the arc count.");
-		if(max_element_of(head) >= node_count)
+		if(!head.empty() && max_element_of(head) >= node_count)
 			throw runtime_error("The head vector contains an out-of-bounds node id.");
 		if(weight.size() != arc_count)
 			throw runtime_error("The weight vector must be as long as the number of arcs");
@@ -72,7 +72,8 @@ int main(int argc, char*argv[]){
 
 		if(source.size() != target.size())
 			throw runtime_error("The source and target vectors must be of the same length.");
-			
+		if(!source.empty() && (max_element_of(source) >= node_count || max_element_of(target) >= node_count))
+			throw runtime_error("The test queries contain an out-of-bounds node id.");
 
 		unsigned query_count = source.size();
 
@@ -106,7 +107,8 @@ int main(int argc, char*argv[]){
 		cout << "done" << endl;
 
 		cout << "max running time : " << time_max << "musec" << endl;
-		cout << "avg running time : " << time_sum/query_count << "musec" << endl;
+		if(query_count != 0)
+			cout << "avg running time : " << time_sum/query_count << "musec" << endl;
 
 		save_vector(distance_file, distance);
 
diff --git a/src/show_path.cpp b/src/show_path.cpp
index acc5728..2462cb2 100644
--- a/src/show_path.cpp
+++ b/src/show_path.cpp
@@ -32,13 +32,16 @@ int main(int argc, char*argv[]){
 		vector<float>latitude = load_vector<float>(latitude_file);
 		vector<float>longitude = load_vector<float>(longitude_file);
 
+		if(latitude.size() != ch.node_count() || longitude.size() != ch.node_count())
+			throw runtime_error("The latitude and longitude vectors must be as long as the number of nodes.");
+
 		ContractionHierarchyQuery ch_query(ch);		
 
 		unsigned source, target;
 		while(cin >> source >> target){
-			if(source > ch.node_count())
+			if(source >= ch.node_count())
 				throw runtime_error("Source out of bounds");
-			if(target > ch.node_count())
+			if(target >= ch.node_count())
 				throw runtime_error("Target out of bounds");
 
 			ch_query.reset().add_source(source).add_target(target).run();
-- 
2.43.0


From 3d227ac4d20e61fdcc2b4b7cea7fed46d83f2f99 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:34:48 +0000
Subject: [PATCH 40/48] fix: the query generators must refuse graphs without
 nodes and short weight vectors

---
 src/generate_dijkstra_rank_test_queries.cpp | 4 ++++
 src/generate_random_node_list.cpp           | 3 +++
 src/generate_random_source_times.cpp        | 3 +++
 src/generate_test_queries.cpp               | 3 +++
 4 files changed, 13 insertions(+)

diff --git a/src/generate_dijkstra_rank_test_queries.cpp b/src/generate_dijkstra_rank_test_queries.cpp
index c7abae4..d8ffdb4 100644
--- a/src/generate_dijkstra_rank_test_queries.cpp
+++ b/src/generate_dijkstra_rank_test_queries.cpp
@@ -49,11 +49,15 @@ int main(int argc, char*argv[]){
 
 		cout << "Validity tests ... " << flush;
 		check_if_graph_is_valid(first_out, head);
+		if(weight.size() != head.size())
+			throw runtime_error("The weight vector must be as long as the number of arcs");
 		cout << "done" << endl;
 
 		auto tail = invert_inverse_vector(first_out);
 
 		unsigned node_count = first_out.size()-1;
+		if(node_count == 0 && source_node_count != 0)
+			throw runtime_error("A graph without nodes has no test queries.");
 
 		vector<unsigned>source;
 		vector<unsigned>target;
diff --git a/src/generate_random_node_list.cpp b/src/generate_random_node_list.cpp
index f2355cb..25c9a2e 100644
--- a/src/generate_random_node_list.cpp
+++ b/src/generate_random_node_list.cpp
@@ -32,6 +32,9 @@ int main(int argc, char*argv[]){
 			file = argv[4];
 		}
 
+		if(node_count == 0 && query_count != 0)
+			throw runtime_error("A graph without nodes has no random nodes.");
+
 		cout << "Generating ... " << flush;
 
 		default_random_engine gen(random_seed);
diff --git a/src/generate_random_source_times.cpp b/src/generate_random_source_times.cpp
index 4e99afb..eb6511d 100644
--- a/src/generate_random_source_times.cpp
+++ b/src/generate_random_source_times.cpp
@@ -32,6 +32,9 @@ int main(int argc, char*argv[]){
 			source_time_file = argv[4];
 		}
 
+		if(period == 0 && time_count != 0)
+			throw runtime_error("The period must not be 0.");
+
 		cout << "Generating ... " << flush;
 
 		default_random_engine gen(random_seed);
diff --git a/src/generate_test_queries.cpp b/src/generate_test_queries.cpp
index 7141fe0..cd0c86c 100644
--- a/src/generate_test_queries.cpp
+++ b/src/generate_test_queries.cpp
@@ -28,6 +28,9 @@ int main(int argc, char*argv[]){
 			target_file = argv[5];
 		}
 
+		if(node_count == 0 && query_count != 0)
+			throw runtime_error("A graph without nodes has no test queries.");
+
 		vector<unsigned>source(query_count);
 		vector<unsigned>target(query_count);
 		
-- 
2.43.0


From 183da258f6b8ee63cd2059ffd69298a852e64f99 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:34:48 +0000
Subject: [PATCH 41/48] fix: the graph tools must refuse inconsistent graphs
 instead of reading outside of them

---
 src/compute_geographic_distance_weights.cpp |  2 ++
 src/compute_nested_dissection_order.cpp     | 18 ++++++++++++++++--
 src/export_road_dimacs_graph.cpp            |  7 ++++++-
 src/randomly_permute_nodes.cpp              |  5 +++++
 src/verify.cpp                              |  2 ++
 5 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/compute_geographic_distance_weights.cpp b/src/compute_geographic_distance_weights.cpp
index 458fbc2..da2a72d 100644
--- a/src/compute_geographic_distance_weights.cpp
+++ b/src/compute_geographic_distance_weights.cpp
@@ -45,6 +45,8 @@ int main(int argc, char*argv[]){
 
 		cout << "Validity tests ... " << flush;
 		check_if_graph_is_valid(first_out, head);
+		if(latitude.size() != first_out.size()-1 || longitude.size() != first_out.size()-1)
+			throw runtime_error("The latitude and longitude vectors must be as long as the number of nodes.");
 		cout << "done" << endl;
 
 
diff --git a/src/compute_nested_dissection_order.cpp b/src/compute_nested_dissection_order.cpp
index 53ee90b..7d08c40 100644
--- a/src/compute_nested_dissection_order.cpp
+++ b/src/compute_nested_dissection_order.cpp
@@ -3,6 +3,7 @@
 #include <routingkit/nested_dissection.h>
 #include <routingkit/timer.h>
 
+#include <algorithm>
 #include <iostream>
 #include <stdexcept>
 #include <vector>
@@ -35,14 +36,27 @@ int main(int argc, char*argv[]){
 		cout << "Loading Graph ... " << flush;
 
 		auto first_out = load_vector<unsigned>(first_out_file);
-		unsigned node_count = first_out.size()-1;
-		auto tail = invert_inverse_vector(first_out);
 		auto head = load_vector<unsigned>(head_file);
 		auto latitude = load_vector<float>(latitude_file);
 		auto longitude = load_vector<float>(longitude_file);
 
 		cout << "done" << endl;
 
+		if(first_out.empty())
+			throw runtime_error("The first out vector must not be empty.");
+		unsigned node_count = first_out.size()-1;
+		if(first_out.front() != 0)
+			throw runtime_error("The first element of first out must be 0.");
+		if(first_out.back() != head.size())
+			throw runtime_error("The last element of first out must be the arc count.");
+		if(!std::is_sorted(first_out.begin(), first_out.end()))
+			throw runtime_error("The first out vector must be sorted.");
+		if(!head.empty() && *std::max_element(head.begin(), head.end()) >= node_count)
+			throw runtime_error("The head vector contains an out-of-bounds node id.");
+		if(latitude.size() != node_count || longitude.size() != node_count)
+			throw runtime_error("The latitude and longitude vectors must be as long as the number of nodes.");
+		auto tail = invert_inverse_vector(first_out);
+
 		cout << "Compute order ... " << flush;
 		timer = -get_micro_time();
 		auto cch_order = compute_nested_node_dissection_order_using_inertial_flow(node_count, tail, head, latitude, longitude);
diff --git a/src/export_road_dimacs_graph.cpp b/src/export_road_dimacs_graph.cpp
index be6169c..5146b95 100644
--- a/src/export_road_dimacs_graph.cpp
+++ b/src/export_road_dimacs_graph.cpp
@@ -3,6 +3,7 @@
 #include <routingkit/sort.h>
 #include <routingkit/inverse_vector.h>
 
+#include <algorithm>
 #include <iostream>
 #include <stdexcept>
 #include <random>
@@ -37,17 +38,20 @@ int main(int argc, char*argv[]){
 		vector<unsigned>first_out = load_vector<unsigned>(in_first_out_file);
 		vector<unsigned>head = load_vector<unsigned>(in_head_file);
 		vector<unsigned>weight = load_vector<unsigned>(in_weight_file);
-		vector<unsigned>tail = invert_inverse_vector(first_out);
 		
 		cout << "done" << endl;
 
 		const unsigned node_count = first_out.size()-1;
 		const unsigned arc_count = head.size();
 
+		if(first_out.empty())
+			throw runtime_error("The first out vector must not be empty.");
 		if(first_out.front() != 0)
 			throw runtime_error("The first element of first out must be 0.");
 		if(first_out.back() != arc_count)
 			throw runtime_error("The last element of first out must be the arc count.");
+		if(!std::is_sorted(first_out.begin(), first_out.end()))
+			throw runtime_error("The first out vector must be sorted.");
 		if(head.empty())
 			throw runtime_error("The head vector must not be empty.");
 		if(max_element_of(head) >= node_count)
@@ -55,6 +59,7 @@ int main(int argc, char*argv[]){
 		if(weight.size() != arc_count)
 			throw runtime_error("The weight vector must be as long as the number of arcs");
 
+		vector<unsigned>tail = invert_inverse_vector(first_out);
 
 		cout << "Saving graph ... " << flush;
 
diff --git a/src/randomly_permute_nodes.cpp b/src/randomly_permute_nodes.cpp
index a38ce30..9dc8a55 100644
--- a/src/randomly_permute_nodes.cpp
+++ b/src/randomly_permute_nodes.cpp
@@ -3,6 +3,7 @@
 #include <routingkit/sort.h>
 #include <routingkit/inverse_vector.h>
 
+#include <algorithm>
 #include <iostream>
 #include <stdexcept>
 #include <random>
@@ -44,10 +45,14 @@ int main(int argc, char*argv[]){
 		const unsigned node_count = first_out.size()-1;
 		const unsigned arc_count = head.size();
 
+		if(first_out.empty())
+			throw runtime_error("The first out vector must not be empty.");
 		if(first_out.front() != 0)
 			throw runtime_error("The first element of first out must be 0.");
 		if(first_out.back() != arc_count)
 			throw runtime_error("The last element of first out must be the arc count.");
+		if(!std::is_sorted(first_out.begin(), first_out.end()))
+			throw runtime_error("The first out vector must be sorted.");
 		if(head.empty())
 			throw runtime_error("The head vector must not be empty.");
 		if(max_element_of(head) >= node_count)
diff --git a/src/verify.cpp b/src/verify.cpp
index 413b337..09ba142 100644
--- a/src/verify.cpp
+++ b/src/verify.cpp
@@ -6,6 +6,8 @@
 namespace RoutingKit{
 
 void check_if_graph_is_valid(const std::vector<unsigned>&first_out, const std::vector<unsigned>&head){
+	if(first_out.empty())
+		throw std::runtime_error("first_out must not be empty");
 	if(first_out.front() != 0)
 		throw std::runtime_error("first_out[0] must be 0");
 	if(first_out.back() != head.size())
-- 
2.43.0


From b07073c5f0bb5ea0e2b6884b8247be08de892f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:32 +0000
Subject: [PATCH 42/48] fix: do not mix up bytes in the replacement of ntohl

The shifts did not remove the neighbouring byte, so that a block header of 64 KiB
or more got a wrong length if ROUTING_KIT_ASSUME_LITTLE_ENDIAN is defined.
---
 src/osm_decoder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index 87248e4..bced3fb 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -33,8 +33,8 @@
 static uint32_t ntohl(uint32_t netlong){
 	return
 		(netlong << 24) |
-		((netlong << 16) >> 8) |
-		((netlong << 8) >> 16) |
+		((netlong & 0x0000ff00) << 8) |
+		((netlong & 0x00ff0000) >> 8) |
 		(netlong >> 24);
 }
 #endif
-- 
2.43.0


From 83fc3717af5246c0287f413f9254df31104b0ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:59 +0000
Subject: [PATCH 43/48] fix: the check of a hierarchy must refuse an order that
 is no permutation instead of writing outside of it

---
 src/contraction_hierarchy.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/contraction_hierarchy.cpp b/src/contraction_hierarchy.cpp
index 8980db8..5278b63 100644
--- a/src/contraction_hierarchy.cpp
+++ b/src/contraction_hierarchy.cpp
@@ -1194,6 +1194,10 @@ ContractionHierarchy ContractionHierarchy::build_given_order(
 void check_contraction_hierarchy_for_errors(const ContractionHierarchy&ch){
 	unsigned node_count = ch.rank.size();
 
+	if(ch.order.size() != node_count)
+		throw std::runtime_error("CH is invalid because: ch.order.size() != node_count");
+	if(!is_permutation(ch.order))
+		throw std::runtime_error("CH is invalid because: !is_permutation(ch.order)");
 	if(ch.rank != invert_permutation(ch.order))
 		throw std::runtime_error("CH is invalid because: ch.rank != invert_permutation(ch.order)");
 
-- 
2.43.0


From 2dbb0130d30f42d5f27d031c227b87588431b484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:04 +0000
Subject: [PATCH 44/48] fix: building a hierarchy of a graph without nodes with
 a log callback must not read an element of an empty vector

---
 src/contraction_hierarchy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/contraction_hierarchy.cpp b/src/contraction_hierarchy.cpp
index 5278b63..1005466 100644
--- a/src/contraction_hierarchy.cpp
+++ b/src/contraction_hierarchy.cpp
@@ -1076,11 +1076,11 @@ namespace {
 			std::vector<unsigned>deg(node_count, 0);
 			for(unsigned i=0; i<tail.size(); ++i)
 				++deg[tail[i]];
-			unsigned max_out_degree = max_element_of(deg);
+			unsigned max_out_degree = max_element_of(deg, 0u);
 			std::fill(deg.begin(), deg.end(), 0);
 			for(unsigned i=0; i<tail.size(); ++i)
 				++deg[head[i]];
-			unsigned max_in_degree = max_element_of(deg);
+			unsigned max_in_degree = max_element_of(deg, 0u);
 			log_message("The input's maximum in-degree is "+std::to_string(max_in_degree)+" and its maximum out-degree is "+std::to_string(max_out_degree)+".");
 
 		}
-- 
2.43.0


From a858a01d8e16f101020467ea266e9d31dcbeeb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:38 +0000
Subject: [PATCH 45/48] fix: a default constructed IDSetMinQueue must be empty,
 a default constructed partial customization can be attached to any hierarchy

---
 include/routingkit/id_set_queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/routingkit/id_set_queue.h b/include/routingkit/id_set_queue.h
index fd18133..7f186e9 100644
--- a/include/routingkit/id_set_queue.h
+++ b/include/routingkit/id_set_queue.h
@@ -105,7 +105,7 @@ private:
 	}
 
 public:
-	IDSetMinQueue(){}
+	IDSetMinQueue():max_number_of_ids(0), min_id(invalid_id), offset(1){}
 
 	//! The queue may contain IDs from 0 to n-1.
 	explicit IDSetMinQueue(unsigned n):
-- 
2.43.0


From ebd33a6abbd8d382f5146442da12325e988ceddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:38 +0000
Subject: [PATCH 46/48] fix: attaching a default constructed query to a metric
 must not depend on uninitialized members

---
 include/routingkit/customizable_contraction_hierarchy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/routingkit/customizable_contraction_hierarchy.h b/include/routingkit/customizable_contraction_hierarchy.h
index f7f3a09..8628b86 100644
--- a/include/routingkit/customizable_contraction_hierarchy.h
+++ b/include/routingkit/customizable_contraction_hierarchy.h
@@ -125,7 +125,7 @@ struct CustomizableContractionHierarchyPartialCustomization{
 };
 
 struct CustomizableContractionHierarchyQuery{
-	CustomizableContractionHierarchyQuery(){}
+	CustomizableContractionHierarchyQuery():cch(nullptr), cch_build_id(0), metric(nullptr){}
 	explicit CustomizableContractionHierarchyQuery(const CustomizableContractionHierarchyMetric&metric);
 
 	CustomizableContractionHierarchyQuery&reset();
-- 
2.43.0


From e72630932a1892af753344c284098f03a88f2564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:05 +0000
Subject: [PATCH 47/48] fix: a copy of a customizable contraction hierarchy
 must not refer to the bit vectors of the original

---
 .../customizable_contraction_hierarchy.h      |  9 +++++++
 src/customizable_contraction_hierarchy.cpp    | 25 +++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/include/routingkit/customizable_contraction_hierarchy.h b/include/routingkit/customizable_contraction_hierarchy.h
index 8628b86..721a72f 100644
--- a/include/routingkit/customizable_contraction_hierarchy.h
+++ b/include/routingkit/customizable_contraction_hierarchy.h
@@ -19,6 +19,15 @@ struct CustomizableContractionHierarchy{
 
 	CustomizableContractionHierarchy(std::vector<unsigned>order, std::vector<unsigned>tail, std::vector<unsigned>head, std::function<void(const std::string&)>log_message = [](const std::string&){}, bool filter_always_inf_arcs = false);
 
+	// The ID mappers refer to the bit vectors of their CCH, a copy needs its own.
+	CustomizableContractionHierarchy(const CustomizableContractionHierarchy&other);
+	CustomizableContractionHierarchy&operator=(const CustomizableContractionHierarchy&other){
+		return *this = CustomizableContractionHierarchy(other);
+	}
+
+	CustomizableContractionHierarchy(CustomizableContractionHierarchy&&) = default;
+	CustomizableContractionHierarchy&operator=(CustomizableContractionHierarchy&&) = default;
+
 	unsigned node_count()const{
 		return rank.size();
 	}
diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index 6cec2a7..32ca0c4 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -739,6 +739,31 @@ namespace{
 	#endif
 }
 
+CustomizableContractionHierarchy::CustomizableContractionHierarchy(const CustomizableContractionHierarchy&other):
+	order(other.order),
+	rank(other.rank),
+	elimination_tree_parent(other.elimination_tree_parent),
+	up_first_out(other.up_first_out),
+	up_head(other.up_head),
+	up_tail(other.up_tail),
+	down_first_out(other.down_first_out),
+	down_head(other.down_head),
+	down_to_up(other.down_to_up),
+	input_arc_to_cch_arc(other.input_arc_to_cch_arc),
+	is_input_arc_upward(other.is_input_arc_upward),
+	does_cch_arc_have_input_arc(other.does_cch_arc_have_input_arc),
+	does_cch_arc_have_input_arc_mapper(does_cch_arc_have_input_arc),
+	forward_input_arc_of_cch(other.forward_input_arc_of_cch),
+	backward_input_arc_of_cch(other.backward_input_arc_of_cch),
+	does_cch_arc_have_extra_input_arc(other.does_cch_arc_have_extra_input_arc),
+	does_cch_arc_have_extra_input_arc_mapper(does_cch_arc_have_extra_input_arc),
+	first_extra_forward_input_arc_of_cch(other.first_extra_forward_input_arc_of_cch),
+	first_extra_backward_input_arc_of_cch(other.first_extra_backward_input_arc_of_cch),
+	extra_forward_input_arc_of_cch(other.extra_forward_input_arc_of_cch),
+	extra_backward_input_arc_of_cch(other.extra_backward_input_arc_of_cch),
+	build_id(other.build_id){
+}
+
 CustomizableContractionHierarchyMetric::CustomizableContractionHierarchyMetric(const CustomizableContractionHierarchy&cch, const std::vector<unsigned>&input_weight):
 	forward(cch.cch_arc_count()), backward(cch.cch_arc_count()), cch(&cch), input_weight(&input_weight[0]){
 }
-- 
2.43.0


From c8e4320eaf105996689f77e8308f1d3843687ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:17 +0000
Subject: [PATCH 48/48] fix: report relations whose member arrays have
 different lengths

Surplus roles or types, i.e. missing member ids, were silently ignored.
---
 src/osm_decoder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index bced3fb..e6e79dd 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -650,6 +650,8 @@ namespace {
 						throw std::runtime_error("PBF error: Unknown relation type.");
 					member_list.push_back({member_type, member_id, role});
 				}
+				if(member_role_begin != member_role_end || member_type_begin != member_type_end)
+					throw std::runtime_error("PBF error: relation member arrays do not decode to equal length.");
 				relation_callback(osm_relation_id, member_list, tag_map);
 			};
 
-- 
2.43.0

