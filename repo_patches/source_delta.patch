From b33f4c6bc7dd96d505b5aee3b43c920253f79a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:44 +0000
Subject: [PATCH 01/32] fix: marray computes strides and extent products in
 size_type

std::accumulate was seeded with int/unsigned literals, so every product of
extents was truncated to 32 bits: element addresses given by index lists and
the element counts used by insert/erase/reshape were wrong for arrays with a
sub-array of 2^31 or more elements.
---
 include/nuSQuIDS/marray.h | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 65a5f86..779d293 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -848,7 +848,7 @@ public:
 		size_t offset=0;
 		//Since Rank>0 this is always a valid iterator, although it may be extents.end()
 		auto extentIt=extents.begin()+1, extentEnd=extents.end();
-		size_t stride=std::accumulate(extentIt,extentEnd,1,std::multiplies<size_type>());
+		size_t stride=std::accumulate(extentIt,extentEnd,size_type(1),std::multiplies<size_type>());
 		for(size_t index : indices){
 			offset+=index*stride;
 			if(extentIt!=extentEnd){ //avoid undefined behavior on last iteration
@@ -864,7 +864,7 @@ public:
 		size_t offset=0;
 		//Since Rank>0 this is always a valid iterator, although it may be extents.end()
 		auto extentIt=extents.begin()+1, extentEnd=extents.end();
-		size_t stride=std::accumulate(extentIt,extentEnd,1,std::multiplies<size_type>());
+		size_t stride=std::accumulate(extentIt,extentEnd,size_type(1),std::multiplies<size_type>());
 		for(size_t index : indices){
 			offset+=index*stride;
 			if(extentIt!=extentEnd){ //avoid undefined behavior on last iteration
@@ -882,7 +882,7 @@ public:
 		size_t offset=0;
 		//Since Rank>0 this is always a valid iterator, although it may be extents.end()
 		auto extentIt=extents.begin()+1, extentEnd=extents.end();
-		size_t stride=std::accumulate(extentIt,extentEnd,1,std::multiplies<size_type>());
+		size_t stride=std::accumulate(extentIt,extentEnd,size_type(1),std::multiplies<size_type>());
 		for(size_t index : indices){
 			offset+=index*stride;
 			if(extentIt!=extentEnd){ //avoid undefined behavior on last iteration
@@ -900,7 +900,7 @@ public:
 		size_t offset=0;
 		//Since Rank>0 this is always a valid iterator, although it may be extents.end()
 		auto extentIt=extents.begin()+1, extentEnd=extents.end();
-		size_t stride=std::accumulate(extentIt,extentEnd,1,std::multiplies<size_type>());
+		size_t stride=std::accumulate(extentIt,extentEnd,size_type(1),std::multiplies<size_type>());
 		for(size_t index : indices){
 			offset+=index*stride;
 			if(extentIt!=extentEnd){ //avoid undefined behavior on last iteration
@@ -947,9 +947,9 @@ public:
 private:
 	void insert(size_type dim, size_type pos, size_t num, value_type val, std::true_type move){
 		const auto mult=std::multiplies<size_type>();
-		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,1u,mult);
+		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,size_type(1),mult);
 		const size_type remainder=extents[dim]-pos;
-		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),1u,mult);
+		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),size_type(1),mult);
 		
 		const size_type new_total_size=iterations*(extents[dim]+num)*chunk_size;
 		value_type* new_data=allocator_traits::allocate(allocator(),new_total_size); //may throw
@@ -1004,9 +1004,9 @@ private:
 	
 	void insert(size_type dim, size_type pos, size_t num, value_type val, std::false_type dont_move){
 		const auto mult=std::multiplies<size_type>();
-		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,1u,mult);
+		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,size_type(1),mult);
 		const size_type remainder=extents[dim]-pos;
-		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),1u,mult);
+		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),size_type(1),mult);
 		
 		const size_type new_total_size=iterations*(extents[dim]+num)*chunk_size;
 		value_type* new_data=allocator_traits::allocate(allocator(),new_total_size); //may throw
@@ -1058,9 +1058,9 @@ public:
 private:
 	void erase(size_type dim, size_type pos, size_t num, std::true_type move){
 		const auto mult=std::multiplies<size_type>();
-		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,1u,mult);
+		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,size_type(1),mult);
 		const size_type remainder=extents[dim]-(pos+num);
-		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),1u,mult);
+		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),size_type(1),mult);
 		
 		const size_type new_total_size=iterations*(extents[dim]-num)*chunk_size;
 		value_type* new_data=allocator_traits::allocate(allocator(),new_total_size); //may throw
@@ -1068,7 +1068,7 @@ private:
 		value_type* write_pos=new_data;
 		value_type* read_pos=data;
 		
-		for(unsigned int i=0; i<iterations; i++){
+		for(size_type i=0; i<iterations; i++){
 			for(size_type j=0; j!=pos*chunk_size; j++,write_pos++,read_pos++)
 				allocator_traits::construct(allocator(),write_pos,std::move(*read_pos));
 			read_pos+=num*chunk_size; //skip the items being erased
@@ -1084,9 +1084,9 @@ private:
 	
 	void erase(size_type dim, size_type pos, size_t num, std::false_type dont_move){
 		const auto mult=std::multiplies<size_type>();
-		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,1u,mult);
+		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,size_type(1),mult);
 		const size_type remainder=extents[dim]-(pos+num);
-		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),1u,mult);
+		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),size_type(1),mult);
 		
 		const size_type new_total_size=iterations*(extents[dim]-num)*chunk_size;
 		value_type* new_data=allocator_traits::allocate(allocator(),new_total_size); //may throw
@@ -1095,7 +1095,7 @@ private:
 		value_type* read_pos=data;
 		
 		try{
-			for(unsigned int i=0; i<iterations; i++){
+			for(size_type i=0; i<iterations; i++){
 				for(size_type j=0; j!=pos*chunk_size; j++,write_pos++,read_pos++)
 					allocator_traits::construct(allocator(),write_pos,*read_pos);
 				read_pos+=num*chunk_size; //skip the items being erased
@@ -1127,9 +1127,9 @@ public:
 		assert(pos+num<=extents[dim]);
 		
 		const auto mult=std::multiplies<size_type>();
-		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,1u,mult);
+		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,size_type(1),mult);
 		const size_type remainder=extents[dim]-(pos+num);
-		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),1u,mult);
+		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),size_type(1),mult);
 		
 		const size_type new_total_size=iterations*(extents[dim]-num)*chunk_size;
 		value_type* new_data=allocator_traits::allocate(allocator(),new_total_size); //may throw
@@ -1140,7 +1140,7 @@ public:
 		constexpr bool move=std::is_nothrow_move_constructible<value_type>::value
 		  && std::is_nothrow_move_assignable<value_type>::value;
 		try{
-			for(unsigned int i=0; i<iterations; i++){
+			for(size_type i=0; i<iterations; i++){
 				for(size_type j=0; j!=pos*chunk_size; j++,write_pos++,read_pos++)
 					allocator_traits::construct(allocator(),write_pos,(move?std::move(*read_pos):*read_pos));
 				read_pos+=num*chunk_size; //skip the items being erased
@@ -1170,7 +1170,7 @@ public:
 	void reshape(const Container& new_extents){
 		if(std::distance(std::begin(new_extents),std::end(new_extents))!=Rank)
 			throw std::logic_error("Incorrect number of dimensions when attempting to reshape multidimensional array");
-		size_type new_total_size=std::accumulate(new_extents.begin(),new_extents.end(),1u,std::multiplies<size_type>());
+		size_type new_total_size=std::accumulate(new_extents.begin(),new_extents.end(),size_type(1),std::multiplies<size_type>());
 		if(new_total_size!=total_size())
 			throw std::logic_error("Inconsistent total size when attempting to reshape multidimensional array");
 		std::copy_n(std::begin(new_extents),Rank,extents.begin());
-- 
2.43.0


From 95a7ced603889e220fe8f6e8104bb769571eaf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:50 +0000
Subject: [PATCH 02/32] fix: const marray::back() returns the last element

It returned a reference to a temporary holding size()-1.
---
 include/nuSQuIDS/marray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 779d293..55b7113 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -1287,7 +1287,7 @@ public:
 	reference front(){ return(data[0]); }
 	const_reference front() const { return(data[0]); }
 	reference back(){ return(data[size()-1]); }
-	const_reference back() const { return(size()-1); }
+	const_reference back() const { return(data[size()-1]); }
 	
 	///Get the allocator currently used by the array
 	allocator_type get_allocator() const{ return(allocator()); }
-- 
2.43.0


From ecd1236ae28995bdbc5842b6df0161ac30b479eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:50 +0000
Subject: [PATCH 03/32] fix: scalar/marray divides the scalar by each element

f/a computed a/f. As the overload was also viable for an marray divisor that is
not const, a/b of two arrays was computed as b/a.
---
 include/nuSQuIDS/marray.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 55b7113..932b7fa 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -1587,9 +1587,12 @@ typename=typename std::enable_if<!detail::is_marray<U>::value>::type>
 marray<T,Rank> operator/(marray<T,Rank>& a, const U& f){
 	return(marray<T,Rank>(a)/=f);
 }
-template<typename T, unsigned Rank, typename U>
+template<typename T, unsigned Rank, typename U,
+typename=typename std::enable_if<!detail::is_marray<U>::value>::type>
 marray<T,Rank> operator/(const U& f, marray<T,Rank>& a){
-	return(marray<T,Rank>(a)/=f);
+	marray<T,Rank> result(a);
+	for(auto& i : result) i=f/i;
+	return(result);
 }
 
 namespace detail{
-- 
2.43.0


From 96395cd02981320a813144702b18884f5bc8e9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:50 +0000
Subject: [PATCH 04/32] fix: pow, atan2 and hypot of two marrays of the same
 type and rank compile

---
 include/nuSQuIDS/marray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 932b7fa..8e36843 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -1940,8 +1940,8 @@ template<typename T, unsigned Rank> \
 marray<T,Rank> fname(const marray<T,Rank>& a1, const marray<T,Rank>& a2){ \
 	if(a1.get_extents()==a2.get_extents()){ \
 		marray<T,Rank> result(a1); \
-		for(auto ri=result.begin(),i1=a1.begin(),i2=a2.begin(),re=result.end; \
-			ri!=re; ri++,i1++,i2++) \
+		auto i1=a1.begin(),i2=a2.begin(); \
+		for(auto ri=result.begin(),re=result.end(); ri!=re; ri++,i1++,i2++) \
 			*ri=fname(*i1,*i2); \
 		return(result); \
 	} \
-- 
2.43.0


From 0f65b6f4a5b6924bc55a725585d8f2e6d0e64744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:14 +0000
Subject: [PATCH 05/32] fix: marray::swap compiles

---
 include/nuSQuIDS/marray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 8e36843..ea2964b 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -914,13 +914,13 @@ public:
 	//TODO: noexcept condition is wrong if swap(allocator_type&,allocator_type&) is found via ADL
 	///Swap contents with another array
 	void swap(marray& other)
-	noexcept(!allocator_traits::propagate_on_container_swap::value || noexcept(std::swap(std::declval<allocator_type>(),std::declval<allocator_type>())))
+	noexcept(!allocator_traits::propagate_on_container_swap::value || noexcept(std::swap(std::declval<allocator_type&>(),std::declval<allocator_type&>())))
 	{
 		using std::swap;
 		for(unsigned int i=0; i<Rank; i++)
 			swap(extents[i],other.extents[i]);
 		swap(total_size(),other.total_size());
-		swap_allocator(other.allocator(),allocator_traits::propagate_on_container_swap());
+		swap_allocator(other.allocator(),typename allocator_traits::propagate_on_container_swap());
 		swap(data,other.data);
 	}
 	
-- 
2.43.0


From a59c43e2b2482a93ad2d8366a5316ca7454b4f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:02 +0000
Subject: [PATCH 06/32] fix: marray constructors release their buffer when the
 initializer is rejected

---
 include/nuSQuIDS/marray.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index ea2964b..8c29942 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -729,11 +729,11 @@ public:
 	data(total_size()?allocator_traits::allocate(allocator(),total_size()):nullptr){
 		std::copy(dims.begin(),dims.end(),extents.begin());
 		
-		//ensure that the initializer has the correct shape
-		detail::initializer_shape_checker<value_type,Rank,Rank>::check(extents,init,0);
-		
 		pointer write_pos=data;
 		try{
+			//ensure that the initializer has the correct shape
+			detail::initializer_shape_checker<value_type,Rank,Rank>::check(extents,init,0);
+			
 			detail::multidimensional_initializer<value_type,Rank,allocator_type,Rank>::initialize(init,allocator(),write_pos);
 		}catch(...){
 			for(pointer p=data; p!=write_pos; p++)
@@ -759,13 +759,13 @@ public:
 	data(total_size()?allocator_traits::allocate(allocator(),total_size()):nullptr){
 		std::copy(dims.begin(),dims.end(),extents.begin());
 		
-		if(std::distance(init_begin,init_end)!=total_size())
-			throw std::logic_error("Iterator range has wrong size to initialize marray");
-		
 		pointer write_pos=data;
 		try{
+			if(std::distance(init_begin,init_end)!=total_size())
+				throw std::logic_error("Iterator range has wrong size to initialize marray");
+			
 			for(; init_begin!=init_end; init_begin++, write_pos++)
-				*write_pos = *init_begin;
+				allocator_traits::construct(allocator(),write_pos,*init_begin);
 		}catch(...){
 			for(pointer p=data; p!=write_pos; p++)
 				allocator_traits::destroy(allocator(),p);
-- 
2.43.0


From 9042f464cca454b4ed79ea62c05ded73339cf575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:07 +0000
Subject: [PATCH 07/32] fix: failed marray assignment deallocates the new
 buffer with its own size and allocator

---
 include/nuSQuIDS/marray.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 8c29942..2313447 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -486,7 +486,7 @@ private:
 		try{
 			copy_init_buffer(new_data,other.total_size(),new_allocator,other.data); //may throw
 		}catch(...){
-			allocator_traits::deallocate(allocator(),new_data,total_size());
+			allocator_traits::deallocate(new_allocator,new_data,other.total_size());
 			throw;
 		}
 		//----
@@ -499,7 +499,7 @@ private:
 		try{
 			copy_init_buffer(new_data,other.total_size(),allocator(),other.data); //may throw
 		}catch(...){
-			allocator_traits::deallocate(allocator(),new_data,total_size());
+			allocator_traits::deallocate(allocator(),new_data,other.total_size());
 			throw;
 		}
 		//----
@@ -526,7 +526,7 @@ private:
 			try{
 				copy_init_buffer(new_data,other.total_size(),allocator(),other.data); //may throw
 			}catch(...){
-				allocator_traits::deallocate(allocator(),new_data,total_size());
+				allocator_traits::deallocate(allocator(),new_data,other.total_size());
 				throw;
 			}
 			//----
-- 
2.43.0


From 6239e4f3c1b42cf5c8b7b9191994200ace69ab8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:07 +0000
Subject: [PATCH 08/32] fix: marray initializer construction does not destroy
 an element whose copy threw

---
 include/nuSQuIDS/marray.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 2313447..0e79018 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -349,8 +349,10 @@ struct multidimensional_initializer{
 template<typename T, unsigned int Rank, typename Allocator>
 struct multidimensional_initializer<T,Rank,Allocator,1>{
 	static void initialize(const typename detail::initializer_for_rank<T,1>::type& init, Allocator& alloc, T*& write_ptr){
-		for(const auto& i : init)
-			std::allocator_traits<Allocator>::construct(alloc,write_ptr++,i);
+		for(const auto& i : init){
+			std::allocator_traits<Allocator>::construct(alloc,write_ptr,i);
+			write_ptr++; //only count objects which were successfully constructed
+		}
 	}
 	static void assign(const typename detail::initializer_for_rank<T,1>::type& init, T*& write_ptr){
 		for(const auto& i : init)
-- 
2.43.0


From c9db46e72ac62b15242f26a690ac58facfadaa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:04 +0000
Subject: [PATCH 09/32] fix: aligned_allocator supports alignments of 256 bytes
 and more

---
 include/nuSQuIDS/aligned_alloc.h | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/include/nuSQuIDS/aligned_alloc.h b/include/nuSQuIDS/aligned_alloc.h
index 5d27366..f3a2e90 100644
--- a/include/nuSQuIDS/aligned_alloc.h
+++ b/include/nuSQuIDS/aligned_alloc.h
@@ -25,6 +25,7 @@
 #ifndef NUSQUIDS_ALIGNED_ALLOC_H
 #define NUSQUIDS_ALIGNED_ALLOC_H
 
+#include <cstring>
 #include <limits>
 
 //An allocator which allocates blocks aligned to 2^n bytes for a user selected n.
@@ -79,7 +80,7 @@ public:
 	
 	///\returns The largest value N for which the call allocate(N,0) might succeed.
 	size_type max_size(){
-		return((std::numeric_limits<size_type>::max()-get_align())/sizeof(T));
+		return((std::numeric_limits<size_type>::max()-get_align()-sizeof(uint32_t))/sizeof(T));
 	}
 	
 	template <class U, class... Args>
@@ -111,23 +112,26 @@ public:
 		
 		size_type needed=n*sizeof(T);
 		size_type alignment=get_align();
-		needed+=alignment; //include space to do our thing
+		needed+=alignment+sizeof(uint32_t); //include space to do our thing
 		
 		//try to get memory
 		void* ptr=new char[needed];
 		
-		//align!
-		uint8_t offset=alignment-reinterpret_cast<size_type>(ptr)%alignment;
+		//align, leaving at least enough padding before the result to hold an offset
+		//which can be as large as the alignment.
 		//Note that since align is a power of 2, align-1 forms a mask with the low
 		//align_pow bits set. Its negation will then preserve only the higher bits
-		//of ptr, effectively flooring it to the nearest multiple of align. Adding
-		//align then preserves this alignment, and ensures that at least one byte 
-		//of padding is before ptr. 
+		//of the address, effectively flooring it to the nearest multiple of align.
+		//Adding align then preserves this alignment, and ensures that the padding is
+		//not lost.
 		//This trick borrowed from Johan Mabille
 		//https://jmabille.github.io/blog/2014/12/06/aligned-memory-allocator/
-		ptr=reinterpret_cast<void*>((reinterpret_cast<size_type>(ptr) & ~(alignment-1))+alignment);
-		//Stash the offset in our guaranteed byte of padding where we can find it later
-		*((uint8_t*)ptr-1)=offset;
+		size_type base=reinterpret_cast<size_type>(ptr);
+		size_type aligned=((base+sizeof(uint32_t)-1) & ~(alignment-1))+alignment;
+		uint32_t offset=aligned-base;
+		ptr=reinterpret_cast<void*>(aligned);
+		//Stash the offset in our guaranteed padding where we can find it later
+		std::memcpy((uint8_t*)ptr-sizeof(offset),&offset,sizeof(offset));
 		
 		return(pointer(ptr));
 	}
@@ -138,7 +142,8 @@ public:
 		
 		uint8_t* ptr=(uint8_t*)p;
 		//find our stashed offset value
-		uint8_t offset=*(ptr-1);
+		uint32_t offset;
+		std::memcpy(&offset,ptr-sizeof(offset),sizeof(offset));
 		//recover the real pointer
 		ptr-=offset;
 		delete[] ptr;
-- 
2.43.0


From 64ba1535ab6e90cda3303cfdb4fada4d2e764628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:06 +0000
Subject: [PATCH 10/32] fix: aligned_allocator converts and compares across
 element types

---
 include/nuSQuIDS/aligned_alloc.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nuSQuIDS/aligned_alloc.h b/include/nuSQuIDS/aligned_alloc.h
index f3a2e90..7b2706a 100644
--- a/include/nuSQuIDS/aligned_alloc.h
+++ b/include/nuSQuIDS/aligned_alloc.h
@@ -150,6 +150,8 @@ public:
 	}
 	
 private:
+	template <typename U> friend class aligned_allocator;
+	
 	///Log base 2 of alignment, in bytes. 
 	///Must be <32. 
 	uint8_t align_pow;
-- 
2.43.0


From a2d1f78e7f162889cd8d9e05867bc0eb1a9c97cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:54 +0000
Subject: [PATCH 11/32] fix: tau decay tables refuse an out of range neutrino
 type

---
 src/taudecay.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/taudecay.cpp b/src/taudecay.cpp
index 9c23041..c946f7c 100644
--- a/src/taudecay.cpp
+++ b/src/taudecay.cpp
@@ -160,25 +160,25 @@ void TauDecaySpectra::Init(marray<double,1> E_range){
 // tau decay spectra returned in units of [GeV^-1]
 
 double TauDecaySpectra::dNdEnu_All(unsigned int i_enu,unsigned int i_ele, unsigned int neutrino_type) const{
-  if(i_enu >= dNdEnu_All_tbl.extent(1) or i_ele >= dNdEnu_All_tbl.extent(2))
+  if(neutrino_type >= dNdEnu_All_tbl.extent(0) or i_enu >= dNdEnu_All_tbl.extent(1) or i_ele >= dNdEnu_All_tbl.extent(2))
     throw std::runtime_error("TauDecaySpectra:dNdEnu_All in valid index choices");
   return dNdEnu_All_tbl[neutrino_type][i_enu][i_ele];
 }
 
 double TauDecaySpectra::dNdEnu_Lep(unsigned int i_enu,unsigned int i_ele, unsigned int neutrino_type) const{
-  if(i_enu >= dNdEnu_Lep_tbl.extent(1) or i_ele >= dNdEnu_Lep_tbl.extent(2))
+  if(neutrino_type >= dNdEnu_Lep_tbl.extent(0) or i_enu >= dNdEnu_Lep_tbl.extent(1) or i_ele >= dNdEnu_Lep_tbl.extent(2))
     throw std::runtime_error("TauDecaySpectra:dNdEnu_Lep in valid index choices");
   return dNdEnu_Lep_tbl[neutrino_type][i_enu][i_ele];
 }
 
 double TauDecaySpectra::dNdEle_All(unsigned int i_enu,unsigned int i_ele, unsigned int neutrino_type) const{
-  if(i_enu >= dNdEle_All_tbl.extent(1) or i_ele >= dNdEle_All_tbl.extent(2))
+  if(neutrino_type >= dNdEle_All_tbl.extent(0) or i_enu >= dNdEle_All_tbl.extent(1) or i_ele >= dNdEle_All_tbl.extent(2))
     throw std::runtime_error("TauDecaySpectra:dNdEle_All in valid index choices");
   return dNdEle_All_tbl[neutrino_type][i_enu][i_ele];
 }
 
 double TauDecaySpectra::dNdEle_Lep(unsigned int i_enu,unsigned int i_ele, unsigned int neutrino_type) const{
-  if(i_enu >= dNdEle_Lep_tbl.extent(1) or i_ele >= dNdEle_Lep_tbl.extent(2))
+  if(neutrino_type >= dNdEle_Lep_tbl.extent(0) or i_enu >= dNdEle_Lep_tbl.extent(1) or i_ele >= dNdEle_Lep_tbl.extent(2))
     throw std::runtime_error("TauDecaySpectra:dNdEle_Lepin valid index choices");
   return dNdEle_Lep_tbl[neutrino_type][i_enu][i_ele];
 }
-- 
2.43.0


From a5b153c2da5b94ea4a2fdb151d93c067f6020f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 12/32] fix: AdaptiveQuad options keep each end point value
 with its own limit when the limits are reversed

---
 include/nuSQuIDS/AdaptiveQuad.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/nuSQuIDS/AdaptiveQuad.h b/include/nuSQuIDS/AdaptiveQuad.h
index 479e83e..1a30990 100644
--- a/include/nuSQuIDS/AdaptiveQuad.h
+++ b/include/nuSQuIDS/AdaptiveQuad.h
@@ -190,18 +190,21 @@ namespace AdaptiveQuad{
 		}
 		
 		//compute function endpoint values if not given
+		//options->fa belongs to the limit passed as a, and options->fb to b
+		double* const knownFa=options ? (reverse?&options->fb:&options->fa) : nullptr;
+		double* const knownFb=options ? (reverse?&options->fa:&options->fb) : nullptr;
 		double fa,fb;
-		if(options && !std::isnan(options->fa))
-			fa=options->fa;
+		if(options && !std::isnan(*knownFa))
+			fa=*knownFa;
 		else{
 			fa=integrand(a);
-			if(options) options->fa=fa;
+			if(options) *knownFa=fa;
 		}
-		if(options && !std::isnan(options->fb))
-			fb=options->fb;
+		if(options && !std::isnan(*knownFb))
+			fb=*knownFb;
 		else{
 			fb=integrand(b);
-			if(options) options->fb=fb;
+			if(options) *knownFb=fb;
 		}
 		
 		//create initial interval with function endpoint values
-- 
2.43.0


From 939660a7274c0378cb966c7e3d0e44a7d0adbade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 13/32] fix: AdaptiveQuad reports out of tolerance only for
 intervals whose uncertainty is not acceptable

---
 include/nuSQuIDS/AdaptiveQuad.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/AdaptiveQuad.h b/include/nuSQuIDS/AdaptiveQuad.h
index 1a30990..5465550 100644
--- a/include/nuSQuIDS/AdaptiveQuad.h
+++ b/include/nuSQuIDS/AdaptiveQuad.h
@@ -262,7 +262,7 @@ namespace AdaptiveQuad{
 			//possible, commit its contribution to the total estimate. 
 			auto processSubinterval=[&](Interval& i){
 				if(i.badness(tol)<=0 || !i.canSubdivide()){
-					if(!i.canSubdivide())
+					if(!(i.badness(tol)<=0))
 						outOfTolerance=true;
 					accumulate(i.value,i.i2);
 				}
-- 
2.43.0


From d3b47fc12dd99f168519b614d4144ff93dcaeb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 14/32] fix: tricubic interpolation takes the mixed yz
 derivatives from the y slice

---
 src/tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index 75788f0..701c745 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -569,7 +569,7 @@ d3fdxdydz(data.get_extents(),nusquids::detail::no_init)
 			spline.initialize(ycoords.get_data(),yslice.get_data(),jMax);
 			spline.getAbscissaDerivatives(yslice);
 			for(std::size_t j=0; j!=jMax; j++)
-				d2fdydz[k][j][i]=xslice[j];
+				d2fdydz[k][j][i]=yslice[j];
 		}
 	}
 	
-- 
2.43.0


From 1775ed7b1f3cf3882af93e71da047c36e988c30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:46 +0000
Subject: [PATCH 15/32] fix: SunASnu built from tables has the radius its
 tracks and the file constructor use

---
 src/body.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/body.cpp b/src/body.cpp
index 96d6a0b..e2bb1fb 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -579,7 +579,7 @@ SunASnu::SunASnu(std::vector<double> x,std::vector<double> rho,std::vector<doubl
 Body(),sun_radius(std::move(x)),sun_density(std::move(rho)),sun_xh(std::move(xh)),
 inter_density(sun_radius,sun_density),inter_xh(sun_radius,sun_xh)
 {
-  radius = 695980.0*param.km;
+  radius = 694439.0*param.km;
   arraysize = sun_radius.size();
 }
 
-- 
2.43.0


From ea5fd226d0d065ab83a6da8844fe2dc4306020e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:46 +0000
Subject: [PATCH 16/32] fix: EarthAtm tracks made from a cosine keep the radius
 and height they were made for

---
 src/body.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/body.cpp b/src/body.cpp
index e2bb1fb..2f821e5 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -772,6 +772,8 @@ EarthAtm::Track::MakeWithCosine(double cosphi, double earth_radius_, double atmh
   Track track;
 
   track.cosphi = cosphi;
+  track.earth_radius = earth_radius_;
+  track.atmheight = atmheight_;
   double sinsqphi = 1-track.cosphi*track.cosphi;
 
   track.L = sqrt(SQR(earth_radius_+atmheight_)-earth_radius_*earth_radius_*sinsqphi)-earth_radius_*cosphi;
-- 
2.43.0


From 6ac01f49dd2d849b6b9aec45d34092711080f687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:03 +0000
Subject: [PATCH 17/32] fix: saving a body or track closes the datatype of its
 name attribute

---
 src/body.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/body.cpp b/src/body.cpp
index 2f821e5..8c2fecd 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -59,6 +59,7 @@ void addStringAttribute(hid_t object, std::string name, std::string contents){
   H5Awrite(attribute_id, strtype, &contents[0]);
   H5Aclose(attribute_id);
   H5Sclose(dataspace_id);
+  H5Tclose(strtype);
 }
 
 //not currently used
-- 
2.43.0


From 6154fca686b4dde31889f000a6e47ca54730e199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:03 +0000
Subject: [PATCH 18/32] fix: writing a string attribute closes its datatype

---
 src/tools.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools.cpp b/src/tools.cpp
index 701c745..9730f07 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -815,6 +815,7 @@ void addH5Attribute<std::string>(hid_t object, std::string name, const std::stri
     H5Awrite(attribute_id, strtype, &contents[0]);
     H5Aclose(attribute_id);
     H5Sclose(dataspace_id);
+    H5Tclose(strtype);
 };
 
 template<>
-- 
2.43.0


From 83597c1cb1b43f6d6648454dd0fd170ec54d4c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:03 +0000
Subject: [PATCH 19/32] fix: empty strings survive being written to and read
 from an attribute

---
 src/tools.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index 9730f07..4939576 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -808,7 +808,8 @@ bool h5ObjectExists(hid_t loc_id, const char* name){
 template<>
 void addH5Attribute<std::string>(hid_t object, std::string name, const std::string& contents){
     hid_t strtype = H5Tcopy(H5T_C_S1);
-    H5Tset_size(strtype, contents.size());
+    // HDF5 has no strings of size zero; an empty string is stored as a single null
+    H5Tset_size(strtype, contents.empty() ? 1 : contents.size());
     hsize_t dim=1;
     hid_t dataspace_id = H5Screate_simple(1, &dim, nullptr);
     hid_t attribute_id = H5Acreate(object,name.c_str(),strtype,dataspace_id,H5P_DEFAULT,H5P_DEFAULT);
@@ -837,6 +838,8 @@ void readH5Attribute<std::string>(hid_t object, std::string name, std::string& d
         H5Tclose(actualType);
         throw std::runtime_error("Failed to read attribute '"+name+"'");
     }
+    if(size==1 && dest[0]=='\0')
+        dest.clear();
     
     H5Aclose(attribute_id);
     H5Tclose(actualType);
-- 
2.43.0


From 35a95d5d6070f3665e4a2f98d2125147c9011f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:03 +0000
Subject: [PATCH 20/32] fix: readArrayH5 closes the dataset when the ranks do
 not match

---
 include/nuSQuIDS/tools.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/tools.h b/include/nuSQuIDS/tools.h
index 8ffef6a..94284c6 100644
--- a/include/nuSQuIDS/tools.h
+++ b/include/nuSQuIDS/tools.h
@@ -366,10 +366,13 @@ void readArrayH5(hid_t container, const std::string& name, marray<T,Rank,Alloc>&
     hid_t dType=h5Datatype<T>::type();
     hid_t dSpace = H5Dget_space(array_id);
     int raw_dim = H5Sget_simple_extent_ndims(dSpace);
-    if(raw_dim!=Rank)
+    if(raw_dim!=Rank){
+        H5Sclose(dSpace);
+        H5Dclose(array_id);
         throw std::runtime_error("Failed to read marray from HDF5: source array has rank "
                                  +std::to_string(raw_dim)+" but target array has rank "
                                  +std::to_string(Rank));
+    }
     std::array<hsize_t,Rank> extents;
     H5Sget_simple_extent_dims(dSpace,&extents[0],nullptr);
     H5Sclose(dSpace);
-- 
2.43.0


From fbd253894f5f935d2d2cc5f7d51a373d7a6d963e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:03 +0000
Subject: [PATCH 21/32] fix: EarthAtm tracks restore their end points

---
 src/body.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/body.cpp b/src/body.cpp
index 8c2fecd..a2f7612 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -731,6 +731,9 @@ std::shared_ptr<EarthAtm::Track> EarthAtm::Track::Deserialize(hid_t group){
     readH5Attribute(group,"atmheight", atmheight);
   auto track=std::make_shared<EarthAtm::Track>(EarthAtm::Track::MakeWithCosine(cosphi,earth_radius,atmheight));
   track->SetX(x);
+  // the end points are exchanged if the track was reversed
+  readH5Attribute(group,"xini",track->xini);
+  readH5Attribute(group,"xend",track->xend);
   return track;
 }
 
-- 
2.43.0


From 470144db7fe69e8878f43eb9f3af183450c29bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:03 +0000
Subject: [PATCH 22/32] fix: SunASnu tracks save and restore their impact
 parameter

---
 src/body.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/body.cpp b/src/body.cpp
index a2f7612..1cd96aa 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -598,13 +598,22 @@ void SunASnu::Track::Serialize(hid_t group) const {
   addDoubleAttribute(group,"x",x);
   addDoubleAttribute(group,"xini",xini);
   addDoubleAttribute(group,"xend",xend);
+  addDoubleAttribute(group,"b_impact",b_impact);
 }
 
 std::shared_ptr<SunASnu::Track> SunASnu::Track::Deserialize(hid_t group){
   double x_   =readDoubleAttribute(group,"x");
   double xini_=readDoubleAttribute(group,"xini");
   double xend_=readDoubleAttribute(group,"xend");
-  return std::make_shared<SunASnu::Track>(x_,xini_,xend_);
+  // the impact parameter was originally not serialized, but the length of the chord determines it
+  double b_impact_;
+  if(H5Aexists(group,"b_impact")>0)
+    b_impact_=readDoubleAttribute(group,"b_impact");
+  else
+    b_impact_=sqrt(SQR(694439.0*param.km)-SQR(0.5*xend_));
+  auto track=std::make_shared<SunASnu::Track>(x_,xini_,b_impact_);
+  track->xend=xend_;
+  return track;
 }
 
 void SunASnu::Serialize(hid_t group) const {
-- 
2.43.0


From 503c7cd2b4bb13fb14e6f7937e165b14d51c2042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:34 +0000
Subject: [PATCH 23/32] fix: empty arrays are written and read without
 referring to their first element

---
 include/nuSQuIDS/tools.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/tools.h b/include/nuSQuIDS/tools.h
index 94284c6..dd8ca93 100644
--- a/include/nuSQuIDS/tools.h
+++ b/include/nuSQuIDS/tools.h
@@ -345,7 +345,7 @@ void writeArrayH5(hid_t loc_id, std::string name, const marray<SourceType,Rank,A
     }
     
     hid_t dSet=H5Dcreate(loc_id, name.c_str(),destType,dSpace,H5P_DEFAULT,plist_id,H5P_DEFAULT);
-    herr_t err=H5Dwrite(dSet,sourceType,H5S_ALL,H5S_ALL,H5P_DEFAULT,&data.front());
+    herr_t err=H5Dwrite(dSet,sourceType,H5S_ALL,H5S_ALL,H5P_DEFAULT,data.get_data());
     
     //need to close whether or not there's an error
     if(compressLevel)
@@ -377,7 +377,7 @@ void readArrayH5(hid_t container, const std::string& name, marray<T,Rank,Alloc>&
     H5Sget_simple_extent_dims(dSpace,&extents[0],nullptr);
     H5Sclose(dSpace);
     data.resize(extents);
-    herr_t err=H5Dread(array_id,dType,H5S_ALL,H5S_ALL,H5P_DEFAULT,&data.front());
+    herr_t err=H5Dread(array_id,dType,H5S_ALL,H5S_ALL,H5P_DEFAULT,data.get_data());
     H5Dclose(array_id);
     if(err<0)
         throw std::runtime_error("Failed to array data from HDF5");
-- 
2.43.0


From f018eacd87f4e65e0327cd1dff48514b2553358e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:39 +0000
Subject: [PATCH 24/32] fix: read differential cross section tables with
 different numbers of energies and zs from HDF5

The tables are stored with z as the first index (as the interpolator expects
and as WriteHDF writes them), so any table which was not square was refused.
---
 src/xsections.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 0c3ed7c..b3188e6 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -398,10 +398,10 @@ NeutrinoDISCrossSectionsFromTables::readFlavorHDF5(hid_t sourceLoc,
 	marray<double,2> buffer2;
 	auto readDifferential=[&](BiCubicInterpolator& dest, const std::string& tableName){
 		readArrayH5(sourceLoc, tableName, buffer2); //reallocates the target array 
-		if(buffer2.extent(0)!=energies.extent(0))
-			throw std::runtime_error(tableName+" does not have the same first dimension as energies");
-		if(buffer2.extent(1)!=zs.extent(0))
-			throw std::runtime_error(tableName+"'s second dimension does not have the same size as zs");
+		if(buffer2.extent(0)!=zs.extent(0))
+			throw std::runtime_error(tableName+"'s first dimension does not have the same size as zs");
+		if(buffer2.extent(1)!=energies.extent(0))
+			throw std::runtime_error(tableName+"'s second dimension does not have the same size as energies");
 		dest=BiCubicInterpolator(std::move(buffer2),energies,zs);
 	};
 	readDifferential(data->dsdy_CC_nu,"dsdy_CC_nu");
-- 
2.43.0


From d4a053218a2ba890cf5fe4dab6f6b02b7c1c45af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:39 +0000
Subject: [PATCH 25/32] fix: write differential cross sections to text with the
 table's own index order

The first index of the interpolator's data is z, the second the energy.
---
 src/xsections.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index b3188e6..9fcd12b 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -355,7 +355,7 @@ void NeutrinoDISCrossSectionsFromTables::WriteText(const std::string& prefix) co
 		for(std::size_t i=0, iMax=x.extent(0); i!=iMax; i++){
 			double en=pow(10.,x[i])/GeV;
 			for(std::size_t j=0, jMax=y.extent(0); j!=jMax; j++)
-				outfile << en << ' ' << y[j] << ' ' << pow(10.,z[i][j]) << '\n';
+				outfile << en << ' ' << y[j] << ' ' << pow(10.,z[j][i]) << '\n';
 		}
 	};
 	NeutrinoFlavor flavor;
-- 
2.43.0


From e6ede6bbf73336261e0deafde2d99618ebf15b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:39 +0000
Subject: [PATCH 26/32] fix: write the muon neutrino cross sections to HDF5
 when they differ from the electron ones

---
 src/xsections.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 9fcd12b..163536f 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -568,7 +568,7 @@ void NeutrinoDISCrossSectionsFromTables::WriteHDF(const std::string& path, unsig
 		writeFlavorHDF5(nueGrp, getFlavor(electron), compressionLevel);
 	}
 	
-	if(true || flavorsSame(electron,muon))
+	if(flavorsSame(electron,muon))
 		makeAlias("electron","muon");
 	else{
 		H5Handle numuGrp(H5Gcreate(h5file, "muon", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT),H5Gclose,"create HDF5 group for nu_mu cross sections");
-- 
2.43.0


From 916abe2f27b689907c44c792935693f9795ba699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:39 +0000
Subject: [PATCH 27/32] fix: do not read past the end of the V1 total cross
 section table at the highest energy

---
 src/xsections.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 163536f..c97209e 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -626,8 +626,8 @@ quested below "+std::to_string(Emin/GeV)+" GeV or above "+std::to_string(Emax/Ge
   double logE = log(Enu);
   double dlogE = logE_data_range[1]-logE_data_range[0];
   size_t idx = static_cast<size_t>((logE-logE_data_range[0])/dlogE);
-  if(idx==div)
-    idx--;
+  if(idx>=div-1) //the last table entry ends the last interval
+    idx=div-2;
   const marray<double,3>& sigma=(current==CC ? s_CC_data : s_NC_data);
   return(LinInter(logE,logE_data_range[idx],logE_data_range[idx+1],sigma[neutype][flavor][idx],sigma[neutype][flavor][idx+1]));
 }
-- 
2.43.0


From 8d21725678d90a19674018959cd40c1880943cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:39 +0000
Subject: [PATCH 28/32] fix: do not convert negative positions to unsigned in
 the V1 differential cross section

The conversion is undefined for outgoing energies more than one step below the
table; it now gives the zero the conversion was seen to lead to.
---
 src/xsections.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index c97209e..f431cc9 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -652,7 +652,10 @@ quested below "+std::to_string(Emin/GeV)+" GeV or above "+std::to_string(Emax/Ge
   double dlogE = logE_data_range[1]-logE_data_range[0];
 
   size_t loge_M1 = static_cast<size_t>((logE1-logE_data_range[0])/dlogE);
-  size_t loge_M2 = static_cast<size_t>((logE2-logE_data_range[0])/dlogE);
+  double pos2 = (logE2-logE_data_range[0])/dlogE;
+  if (pos2 <= -1) // below the table, would not be representable as an index
+    return 0.0;
+  size_t loge_M2 = static_cast<size_t>(pos2);
 
   if ((loge_M2 > div-1) or (loge_M1 > div-1) or (E2 >= E1))
     return 0.0;
-- 
2.43.0


From 4ca2bf5d9403cf7257775fe205acf663edb5b597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:39 +0000
Subject: [PATCH 29/32] fix: refuse inconsistent V1 text tables

The number of columns of a table was compared with itself and the sizes of the
differential tables were not looked at, so that short tables were read past
their end.
---
 src/xsections.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index f431cc9..80414af 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -721,7 +721,11 @@ void NeutrinoDISCrossSectionsFromTables_V1::ReadText(std::string root){
           // check table shapes and get the number of energy nodes
           unsigned int data_e_size = 0;
           if( sigma_CC_raw_data.extent(0) == sigma_NC_raw_data.extent(0) and
-              sigma_NC_raw_data.extent(1) == sigma_NC_raw_data.extent(1) )
+              sigma_CC_raw_data.extent(1) == sigma_NC_raw_data.extent(1) and
+              sigma_CC_raw_data.extent(1) >= 7 and
+              dsde_CC_raw_data.extent(0) == sigma_CC_raw_data.extent(0)*sigma_CC_raw_data.extent(0) and
+              dsde_NC_raw_data.extent(0) == dsde_CC_raw_data.extent(0) and
+              dsde_CC_raw_data.extent(1) >= 8 and dsde_NC_raw_data.extent(1) >= 8 )
             data_e_size = sigma_CC_raw_data.extent(0);
           else
             throw std::runtime_error("nuSQUIDS::xsections::init: Data tables not the same size.");
-- 
2.43.0


From f75454afe9c7ed3d7d02694293a6faa8ab45aee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:44 +0000
Subject: [PATCH 30/32] fix: quickread takes the number of columns from lines
 that hold data

---
 src/tools.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index 4939576..e4d395e 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -51,7 +51,7 @@ marray<double,2> quickread(std::string filepath){
 
     std::vector< std::vector<double> > table;
     std::string line;
-    size_t column_number = -1;
+    size_t column_number = 0;
     while(getline(infile,line)){
         std::vector<double> row;
         std::stringstream linestream(line);
@@ -67,9 +67,8 @@ marray<double,2> quickread(std::string filepath){
             if(!table.empty() and column_number != row.size())
               throw std::runtime_error("nuSQuIDS::tools::quickread: Number of columns in file not equal.");
             table.push_back(row);
+            column_number = row.size();
         }
-
-        column_number = row.size();
     }
 
     marray<double,2> otable {table.size(),column_number};
-- 
2.43.0


From b6a29ef6fb91f08a3f463b25d26c196b0901c2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:21 +0000
Subject: [PATCH 31/32] fix: older HDF5 cross section tables of inconsistent
 shapes are refused instead of read past their end

---
 src/xsections.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 80414af..090292f 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -779,15 +779,18 @@ NeutrinoDISCrossSectionsFromTables_V1::NeutrinoDISCrossSectionsFromTables_V1(std
       readArrayH5(h5file, "dsDE_CC", dsde_CC_data);
       readArrayH5(h5file, "dsDE_NC", dsde_NC_data);
     }
-    //TODO: make sanity checking more user friendly
-    assert(dsde_CC_data.extent(2)==dsde_CC_data.extent(3));
-    assert(dsde_NC_data.extent(2)==dsde_NC_data.extent(3));
-    assert(dsde_CC_data.extent(2)==dsde_NC_data.extent(2));
-    assert(dsde_CC_data.extent(0)==2);
-    assert(dsde_NC_data.extent(0)==2);
-    assert(dsde_CC_data.extent(1)==3);
-    assert(dsde_NC_data.extent(1)==3);
-    
+    // check table shapes: 2 neutrino types, 3 flavors and the same energy nodes everywhere
+    const size_t n=dsde_CC_data.extent(2);
+    auto hasTotalShape=[n](const marray<double,3>& t){
+      return t.extent(0)==2 and t.extent(1)==3 and t.extent(2)==n;
+    };
+    auto hasDifferentialShape=[n](const marray<double,4>& t){
+      return t.extent(0)==2 and t.extent(1)==3 and t.extent(2)==n and t.extent(3)==n;
+    };
+    if(n<2 or !hasTotalShape(s_CC_data) or !hasTotalShape(s_NC_data) or
+       !hasDifferentialShape(dsde_CC_data) or !hasDifferentialShape(dsde_NC_data))
+      throw std::runtime_error(path+" does not contain cross section tables of matching sizes");
+
     div=dsde_CC_data.extent(2);
     unsigned int data_e_size=div;
     auto raw_logE_data_range=logspace(Emin/GeV,Emax/GeV,div);
-- 
2.43.0


From 6e1f0c7c8a6dc3ff62050d03cfcca9147a456a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:11 +0000
Subject: [PATCH 32/32] fix: outgoing energies a rounding away from the end of
 the older cross section tables are not looked up past it

---
 src/xsections.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 090292f..3306584 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -659,6 +659,8 @@ quested below "+std::to_string(Emin/GeV)+" GeV or above "+std::to_string(Emax/Ge
 
   if ((loge_M2 > div-1) or (loge_M1 > div-1) or (E2 >= E1))
     return 0.0;
+  if (loge_M2 >= div-1) // the last table entry ends the last interval, also if rounding gets there
+    loge_M2 = div-2;
 
   //std::cout << E1 << " " << E2 << " " << loge_M1 << " " << loge_M2 << " " << div << std::endl;
   double phiMM,phiMP,phiPM,phiPP;
-- 
2.43.0

