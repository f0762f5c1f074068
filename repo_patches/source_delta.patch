From 14a1c4e81759e0cba84c1e47a7447970b3a14c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:38 +0000
Subject: [PATCH 001/120] fix: keep a timer task alive while it runs when it
 releases its own token

---
 stingraykit/timer/Timer.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/stingraykit/timer/Timer.cpp b/stingraykit/timer/Timer.cpp
index 84b2e3f..d0c4787 100644
--- a/stingraykit/timer/Timer.cpp
+++ b/stingraykit/timer/Timer.cpp
@@ -293,13 +293,15 @@ namespace stingray
 			if (!guard)
 				return;
 
+			const TaskType task = ci->GetTask(); // task may release its own token while running
+
 			if (_profileTimeout)
 			{
-				AsyncProfiler::Session profiler_session(ExecutorsProfiler::Instance().GetProfiler(), Bind(&Timer::GetProfilerMessage, this, wrap_const_ref(ci->GetTask())), *_profileTimeout, AsyncProfiler::NameGetterTag());
-				ci->GetTask()();
+				AsyncProfiler::Session profiler_session(ExecutorsProfiler::Instance().GetProfiler(), Bind(&Timer::GetProfilerMessage, this, wrap_const_ref(task)), *_profileTimeout, AsyncProfiler::NameGetterTag());
+				task();
 			}
 			else
-				ci->GetTask()();
+				task();
 		}
 		catch (const std::exception& ex)
 		{ _exceptionHandler(ex); }
-- 
2.43.0


From 41738df390121cb40fe8b2e55fc0540aefe3ccb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:04 +0000
Subject: [PATCH 002/120] fix: refuse cancellation handler registration on
 joined token if any of its tokens is already cancelled or timed out

---
 stingraykit/thread/JoiningCancellationToken.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/stingraykit/thread/JoiningCancellationToken.cpp b/stingraykit/thread/JoiningCancellationToken.cpp
index 3d8e3fa..7b76def 100644
--- a/stingraykit/thread/JoiningCancellationToken.cpp
+++ b/stingraykit/thread/JoiningCancellationToken.cpp
@@ -47,10 +47,18 @@ namespace stingray
 
 	bool JoiningCancellationToken::TryRegisterCancellationHandler(ICancellationHandler& handler) const
 	{
+		_secondRegistered = false;
 		_firstRegistered = _firstRegistrator.TryRegisterCancellationHandler(handler);
+		if (!_firstRegistered)
+			return false;
+
 		_secondRegistered = _secondRegistrator.TryRegisterCancellationHandler(handler);
+		if (_secondRegistered)
+			return true;
 
-		return _firstRegistered || _secondRegistered;
+		// If the first token is being cancelled right now, the handler is invoked anyway and has to be unregistered by the caller
+		_firstRegistered = !_firstRegistrator.TryUnregisterCancellationHandler();
+		return _firstRegistered;
 	}
 
 
-- 
2.43.0


From 4787718228d493e3395f3b4dc2e25ecccbed3206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:04 +0000
Subject: [PATCH 003/120] fix: report timeout instead of cancellation when
 waiting with an already expired token

---
 stingraykit/thread/posix/PosixConditionVariable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/thread/posix/PosixConditionVariable.cpp b/stingraykit/thread/posix/PosixConditionVariable.cpp
index 986419e..73e54db 100644
--- a/stingraykit/thread/posix/PosixConditionVariable.cpp
+++ b/stingraykit/thread/posix/PosixConditionVariable.cpp
@@ -103,7 +103,7 @@ namespace stingray
 	{
 		CancellationHolder holder(mutex, *this, token);
 		if (holder.IsCancelled())
-			return ConditionWaitResult::Cancelled;
+			return token.IsCancelled() ? ConditionWaitResult::Cancelled : ConditionWaitResult::TimedOut;
 
 		const optional<TimeDuration> timeout = token.GetTimeout();
 		if (!timeout)
-- 
2.43.0


From 0a01b69161cc14560d48e418671970f448c80cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:04 +0000
Subject: [PATCH 004/120] fix: report interrupted sleep on joined token when
 its timeout is shorter than requested duration

---
 stingraykit/thread/JoiningCancellationToken.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stingraykit/thread/JoiningCancellationToken.cpp b/stingraykit/thread/JoiningCancellationToken.cpp
index 7b76def..7874a58 100644
--- a/stingraykit/thread/JoiningCancellationToken.cpp
+++ b/stingraykit/thread/JoiningCancellationToken.cpp
@@ -27,7 +27,11 @@ namespace stingray
 		MutexLock l(_mutex);
 
 		if (duration)
-			return _cond.Wait(_mutex, TimedCancellationToken(*this, *duration)) == ConditionWaitResult::TimedOut;
+		{
+			const auto timeout = GetTimeout();
+			const bool truncated = timeout && *timeout < *duration;
+			return _cond.Wait(_mutex, TimedCancellationToken(*this, *duration)) == ConditionWaitResult::TimedOut && !truncated;
+		}
 		else
 		{
 			_cond.Wait(_mutex, *this);
-- 
2.43.0


From 9efd3c94479e1e14e60a6d8fb5c890aafef6a4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 005/120] fix: swap future retrieval flags of promises along
 with their states

---
 stingraykit/future.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/stingraykit/future.h b/stingraykit/future.h
index 608fc6d..4495e74 100644
--- a/stingraykit/future.h
+++ b/stingraykit/future.h
@@ -297,7 +297,10 @@ namespace stingray
 		{ _futureImpl->set_exception(MakeExceptionPtr(BrokenPromise())); }
 
 		void swap(promise& other)
-		{ _futureImpl.swap(other._futureImpl); }
+		{
+			_futureImpl.swap(other._futureImpl);
+			std::swap(_futureRetrieved, other._futureRetrieved);
+		}
 
 		future<ResultType> get_future()
 		{ STINGRAYKIT_CHECK(!_futureRetrieved, FutureAlreadyRetrieved()); _futureRetrieved = true; return future<ResultType>(_futureImpl); }
@@ -329,7 +332,10 @@ namespace stingray
 		{ _futureImpl->set_exception(MakeExceptionPtr(BrokenPromise())); }
 
 		void swap(promise& other)
-		{ _futureImpl.swap(other._futureImpl); }
+		{
+			_futureImpl.swap(other._futureImpl);
+			std::swap(_futureRetrieved, other._futureRetrieved);
+		}
 
 		future<ResultType> get_future()
 		{ STINGRAYKIT_CHECK(!_futureRetrieved, FutureAlreadyRetrieved()); _futureRetrieved = true; return future<ResultType>(_futureImpl); }
-- 
2.43.0


From 189ad1dd46e1c865d0853f95a694314aab1245b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 006/120] fix: read reference count of self-counted object
 atomically

---
 stingraykit/self_counter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/self_counter.h b/stingraykit/self_counter.h
index 8fb9314..3725ee9 100644
--- a/stingraykit/self_counter.h
+++ b/stingraykit/self_counter.h
@@ -201,7 +201,7 @@ namespace stingray
 		}
 
 		int use_count() const
-		{ return _value; }
+		{ return AtomicS32::Load(_value); }
 
 	protected:
 		self_counter()
-- 
2.43.0


From 70c4e29c4358c315442835c33b8c90ddf140cbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:40 +0000
Subject: [PATCH 007/120] fix: do not read beyond buffered data after seeking
 past the end of stream

---
 stingraykit/io/BufferedStream.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/io/BufferedStream.h b/stingraykit/io/BufferedStream.h
index 9c12500..a8b7a84 100644
--- a/stingraykit/io/BufferedStream.h
+++ b/stingraykit/io/BufferedStream.h
@@ -44,12 +44,12 @@ namespace stingray
 			u8* dst = data.data();
 			for (size_t toCopy = 0; total < dstSize && token; _inBufferOffset += toCopy, dst += toCopy, total += toCopy)
 			{
-				if (!_bufferSize || _inBufferOffset == _bufferSize)
+				if (!_bufferSize || _inBufferOffset >= _bufferSize)
 				{
 					if (_bufferSize)
 						SeekStream(Tell());
 					_bufferSize = _stream->Read(_buffer, token);
-					if (!_bufferSize || _inBufferOffset == _bufferSize)
+					if (!_bufferSize || _inBufferOffset >= _bufferSize)
 						break;
 				}
 				toCopy = std::min(dstSize - total, _bufferSize - _inBufferOffset);
-- 
2.43.0


From 97a98aa9c2f0df74f2b3b22ef658e1d8adac0165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:40 +0000
Subject: [PATCH 008/120] fix: restore position of underlying stream after
 failed write to buffered stream

---
 stingraykit/io/BufferedStream.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/stingraykit/io/BufferedStream.h b/stingraykit/io/BufferedStream.h
index a8b7a84..2e990cc 100644
--- a/stingraykit/io/BufferedStream.h
+++ b/stingraykit/io/BufferedStream.h
@@ -62,7 +62,14 @@ namespace stingray
 		{
 			if (_inBufferOffset != _bufferSize || _bufferSize)
 				_stream->Seek(Tell());
-			u64 total = _stream->Write(data, token);
+			u64 total = 0;
+			try
+			{ total = _stream->Write(data, token); }
+			catch (...)
+			{
+				SeekStream(Tell());
+				throw;
+			}
 			SeekStream(Tell() + total);
 			return total;
 		}
-- 
2.43.0


From dd0d3a56e72141e8303f65639f894ecf4e81d342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:40 +0000
Subject: [PATCH 009/120] fix: write across chunk boundaries of chunked memory
 stream

---
 stingraykit/io/ChunkedMemoryByteStream.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stingraykit/io/ChunkedMemoryByteStream.h b/stingraykit/io/ChunkedMemoryByteStream.h
index 5956060..7f463e2 100644
--- a/stingraykit/io/ChunkedMemoryByteStream.h
+++ b/stingraykit/io/ChunkedMemoryByteStream.h
@@ -78,6 +78,7 @@ namespace stingray
 					curcount = std::min(data.size() - passed, _chunk->size() - _chunkOffset);
 					std::copy(data.data() + passed, data.data() + passed + curcount, _chunk->begin() + _chunkOffset);
 					_chunkOffset += curcount;
+					NormalizePosition();
 				}
 			}
 			return passed;
-- 
2.43.0


From fe3350115e54a5d651d89494b6531cdb5e310fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:40 +0000
Subject: [PATCH 010/120] fix: allow seeking within memory streams larger than
 2 gigabytes

---
 stingraykit/io/MemoryByteStream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/io/MemoryByteStream.h b/stingraykit/io/MemoryByteStream.h
index 905d625..4a7045e 100644
--- a/stingraykit/io/MemoryByteStream.h
+++ b/stingraykit/io/MemoryByteStream.h
@@ -92,7 +92,7 @@ namespace stingray
 			}
 			if (new_ofs < 0)
 				STINGRAYKIT_THROW(IndexOutOfRangeException());
-			if (new_ofs > (int)_data.size())
+			if (new_ofs > (s64)_data.size())
 				STINGRAYKIT_THROW(NotImplementedException());
 			_offset = new_ofs;
 		}
-- 
2.43.0


From 37166b33e93b080ab29274258781df5a516cc3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:40 +0000
Subject: [PATCH 011/120] fix: clear circular buffer whose data wraps around
 its end

---
 stingraykit/io/CircularBufferBase.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stingraykit/io/CircularBufferBase.h b/stingraykit/io/CircularBufferBase.h
index edb2264..685c49c 100644
--- a/stingraykit/io/CircularBufferBase.h
+++ b/stingraykit/io/CircularBufferBase.h
@@ -214,6 +214,7 @@ namespace stingray
 				_writeOffset = _readOffset + _lockedDataSize;
 			else
 				_writeOffset = _readOffset + _lockedDataSize - GetStorageSize();
+			_dataIsContiguous = _readOffset + _lockedDataSize < GetStorageSize();
 
 			if (_loggingEnabled)
 			{
-- 
2.43.0


From 09c76225f17017d1719f56691484095fe434ebde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:40 +0000
Subject: [PATCH 012/120] fix: keep popped data locked when an empty data
 reserver is released

---
 stingraykit/io/CircularBufferBase.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stingraykit/io/CircularBufferBase.h b/stingraykit/io/CircularBufferBase.h
index 685c49c..47ac6ba 100644
--- a/stingraykit/io/CircularBufferBase.h
+++ b/stingraykit/io/CircularBufferBase.h
@@ -89,6 +89,9 @@ namespace stingray
 
 		void ReleaseData(size_t size)
 		{
+			if (size == 0)
+				return;
+
 			MutexLock l(_mutex);
 
 			if (_loggingEnabled)
-- 
2.43.0


From b4645a754e38575c2098de7ae5edaffd62a68082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:40 +0000
Subject: [PATCH 013/120] fix: accept empty data in memory circular buffer

---
 stingraykit/io/MemoryCircularBuffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stingraykit/io/MemoryCircularBuffer.h b/stingraykit/io/MemoryCircularBuffer.h
index eda65f7..4668a37 100644
--- a/stingraykit/io/MemoryCircularBuffer.h
+++ b/stingraykit/io/MemoryCircularBuffer.h
@@ -33,7 +33,8 @@ namespace stingray
 		virtual void WriteToStorage(size_t offset, ConstByteData::iterator begin, ConstByteData::iterator end)
 		{
 			//std::copy(&(*begin), &(*begin) + std::distance(begin, end), _container.begin() + offset);
-			::memcpy(&_container[0] + offset, &(*begin), std::distance(begin, end));
+			if (begin != end)
+				::memcpy(&_container[0] + offset, &(*begin), std::distance(begin, end));
 		}
 
 		virtual ConstByteData ReadStorage(size_t offset, size_t size) const
-- 
2.43.0


From 63f7ade664e35435d5bc1cdac0aea04902e01b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:40 +0000
Subject: [PATCH 014/120] fix: reject byte data range whose end overflows

---
 stingraykit/collection/ByteData.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/stingraykit/collection/ByteData.h b/stingraykit/collection/ByteData.h
index d9e9dce..b1d94eb 100644
--- a/stingraykit/collection/ByteData.h
+++ b/stingraykit/collection/ByteData.h
@@ -392,7 +392,10 @@ namespace stingray
 		template < typename U, typename EnableIf<IsConvertible<U*, T*>::Value, int>::ValueT = 0 >
 		BasicByteData(const BasicByteArray<U>& array, size_t offset, size_t size)
 			: _data(array.data() + offset), _size(size)
-		{ DETAIL_BYTEDATA_INDEX_CHECK(offset + _size, array.size()); }
+		{
+			DETAIL_BYTEDATA_INDEX_CHECK(offset, array.size());
+			DETAIL_BYTEDATA_INDEX_CHECK(_size, array.size() - offset);
+		}
 
 		template < typename U, size_t N >
 		BasicByteData(U(&arr)[N])
@@ -409,7 +412,10 @@ namespace stingray
 
 		BasicByteData(BasicByteData data, size_t offset, size_t size)
 			: _data(data._data + offset), _size(size)
-		{ DETAIL_BYTEDATA_INDEX_CHECK(offset + size, data._size); }
+		{
+			DETAIL_BYTEDATA_INDEX_CHECK(offset, data._size);
+			DETAIL_BYTEDATA_INDEX_CHECK(size, data._size - offset);
+		}
 
 		T& operator [] (size_t index) const
 		{
-- 
2.43.0


From 751d8c3f1764075c8b4d5b2933e9f12c1b455729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:40 +0000
Subject: [PATCH 015/120] fix: do not let a view of byte array view exceed the
 latter

---
 stingraykit/collection/ByteData.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/stingraykit/collection/ByteData.h b/stingraykit/collection/ByteData.h
index b1d94eb..0760322 100644
--- a/stingraykit/collection/ByteData.h
+++ b/stingraykit/collection/ByteData.h
@@ -183,12 +183,18 @@ namespace stingray
 		template < typename U, typename EnableIf<IsConvertible<U*, T*>::Value, int>::ValueT = 0 >
 		BasicByteArray(const BasicByteArray<U>& other, size_t offset)
 			: _data(other._data), _offset(other._offset + offset), _sizeLimit(other._sizeLimit == NoSizeLimit ? NoSizeLimit : other._sizeLimit - offset)
-		{ STINGRAYKIT_CHECK(_data->size() >= _offset, IndexOutOfRangeException(_offset, _data->size())); }
+		{
+			STINGRAYKIT_CHECK(_data->size() >= _offset, IndexOutOfRangeException(_offset, _data->size()));
+			STINGRAYKIT_CHECK(offset <= other._sizeLimit, IndexOutOfRangeException(offset, other._sizeLimit));
+		}
 
 		template < typename U, typename EnableIf<IsConvertible<U*, T*>::Value, int>::ValueT = 0 >
 		BasicByteArray(BasicByteArray<U>&& other, size_t offset)
 			: _data(std::move(other._data)), _offset(other._offset + offset), _sizeLimit(other._sizeLimit == NoSizeLimit ? NoSizeLimit : other._sizeLimit - offset)
-		{ STINGRAYKIT_CHECK(_data->size() >= _offset, IndexOutOfRangeException(_offset, _data->size())); }
+		{
+			STINGRAYKIT_CHECK(_data->size() >= _offset, IndexOutOfRangeException(_offset, _data->size()));
+			STINGRAYKIT_CHECK(offset <= other._sizeLimit, IndexOutOfRangeException(offset, other._sizeLimit));
+		}
 
 		template < typename U, typename EnableIf<IsConvertible<U*, T*>::Value, int>::ValueT = 0 >
 		BasicByteArray(const BasicByteArray<U>& other, size_t offset, size_t sizeLimit)
@@ -196,7 +202,7 @@ namespace stingray
 		{
 			STINGRAYKIT_CHECK(_data->size() >= _offset, IndexOutOfRangeException(_offset, _data->size()));
 			STINGRAYKIT_CHECK(_sizeLimit == NoSizeLimit || _sizeLimit + offset <= _data->size(), IndexOutOfRangeException(_sizeLimit + offset, offset, _data->size()));
-			STINGRAYKIT_CHECK(_sizeLimit + offset <= other._sizeLimit, IndexOutOfRangeException(_sizeLimit + offset, offset, other._sizeLimit));
+			STINGRAYKIT_CHECK(offset <= other._sizeLimit && (other._sizeLimit == NoSizeLimit || _sizeLimit <= other._sizeLimit - offset), IndexOutOfRangeException(_sizeLimit, offset, other._sizeLimit));
 		}
 
 		template < typename U, typename EnableIf<IsConvertible<U*, T*>::Value, int>::ValueT = 0 >
@@ -205,7 +211,7 @@ namespace stingray
 		{
 			STINGRAYKIT_CHECK(_data->size() >= _offset, IndexOutOfRangeException(_offset, _data->size()));
 			STINGRAYKIT_CHECK(_sizeLimit == NoSizeLimit || _sizeLimit + offset <= _data->size(), IndexOutOfRangeException(_sizeLimit + offset, offset, _data->size()));
-			STINGRAYKIT_CHECK(_sizeLimit + offset <= other._sizeLimit, IndexOutOfRangeException(_sizeLimit + offset, offset, other._sizeLimit));
+			STINGRAYKIT_CHECK(offset <= other._sizeLimit && (other._sizeLimit == NoSizeLimit || _sizeLimit <= other._sizeLimit - offset), IndexOutOfRangeException(_sizeLimit, offset, other._sizeLimit));
 		}
 
 		void RequireSize(size_t size)
-- 
2.43.0


From eeffa9ebfea4fc49d6fdd29cf7cc35f5a8ac5d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 016/120] fix: count data read from paged buffer while pages
 are being dropped

---
 stingraykit/io/PagedBuffer.cpp | 8 ++++++--
 stingraykit/io/PagedBuffer.h   | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/stingraykit/io/PagedBuffer.cpp b/stingraykit/io/PagedBuffer.cpp
index 7fb1a68..76c418f 100644
--- a/stingraykit/io/PagedBuffer.cpp
+++ b/stingraykit/io/PagedBuffer.cpp
@@ -90,7 +90,7 @@ namespace stingray
 
 		Log(LogLevel::Trace) << "Read: current offset: " << _currentOffset << " --> page: " << pageIndex << "/" << _pages.size() << ", offset: " << offset;
 
-		const u64 currentOffset = _currentOffset;
+		const u64 absoluteOffset = _droppedSize + _currentOffset;
 		size_t processed = 0;
 
 		{
@@ -109,7 +109,7 @@ namespace stingray
 			processed -= remainder;
 		}
 
-		if (_currentOffset == currentOffset)
+		if (_droppedSize + _currentOffset == absoluteOffset)
 			_currentOffset += processed;
 	}
 
@@ -201,12 +201,14 @@ namespace stingray
 		STINGRAYKIT_CHECK(size % _chunkSize == 0, ArgumentException("size", size));
 
 		auto newBeginIt = _pages.begin();
+		u64 newDroppedSize = _droppedSize;
 		u64 newStartOffset = _startOffset + size;
 		u64 newCurrentOffset = std::max(newStartOffset, _currentOffset);
 
 		while (newStartOffset >= _pageSize)
 		{
 			++newBeginIt;
+			newDroppedSize += _pageSize;
 			newStartOffset -= _pageSize;
 			newCurrentOffset -= _pageSize;
 		}
@@ -221,6 +223,7 @@ namespace stingray
 		}
 
 		_pages.erase(_pages.begin(), newBeginIt);
+		_droppedSize = newDroppedSize;
 		_startOffset = newStartOffset;
 		_currentOffset = newCurrentOffset;
 	}
@@ -246,6 +249,7 @@ namespace stingray
 		:	_name(name),
 			_pageSize(pageSize),
 			_chunkSize(chunkSize),
+			_droppedSize(0),
 			_startOffset(0),
 			_currentOffset(0),
 			_tailSize(0),
diff --git a/stingraykit/io/PagedBuffer.h b/stingraykit/io/PagedBuffer.h
index 9731e56..d10c4f1 100644
--- a/stingraykit/io/PagedBuffer.h
+++ b/stingraykit/io/PagedBuffer.h
@@ -43,6 +43,7 @@ namespace stingray
 
 		PagesContainer				_pages;
 
+		u64							_droppedSize;
 		u64							_startOffset;
 		u64							_currentOffset;
 		u64							_tailSize;
-- 
2.43.0


From 8bcbfb0cabe2311a514788e716d64a441c2c17dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 017/120] fix: wait for a push in progress whose data is
 already read from paged buffer

---
 stingraykit/io/PagedBuffer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stingraykit/io/PagedBuffer.cpp b/stingraykit/io/PagedBuffer.cpp
index 76c418f..b5e1e81 100644
--- a/stingraykit/io/PagedBuffer.cpp
+++ b/stingraykit/io/PagedBuffer.cpp
@@ -74,8 +74,9 @@ namespace stingray
 		MutexLock l(_mutex);
 		ReadLock rl(*this);
 
-		const u64 unreadSize = _pageSize * _pages.size() - _currentOffset - _tailSize;
-		if (unreadSize < _chunkSize)
+		// data that is being pushed may be already read from its page
+		const u64 storedSize = _pageSize * _pages.size() - _tailSize;
+		if (storedSize < _currentOffset + _chunkSize)
 		{
 			_dataPushed.Wait(_mutex, token);
 			return;
-- 
2.43.0


From 8395f67ca23ab0347bfce950c59fd580a84d2bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:37 +0000
Subject: [PATCH 018/120] fix: insert added element when applying a difference
 to transaction of list

---
 stingraykit/collection/TransactionalList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/collection/TransactionalList.h b/stingraykit/collection/TransactionalList.h
index 3347cd6..8921da5 100644
--- a/stingraykit/collection/TransactionalList.h
+++ b/stingraykit/collection/TransactionalList.h
@@ -325,7 +325,7 @@ namespace stingray
 				switch (entry.Op)
 				{
 				case CollectionOp::Added:
-					Set(entry.Item.Key, entry.Item.Value);
+					Insert(entry.Item.Key, entry.Item.Value);
 					break;
 				case CollectionOp::Updated:
 					Set(entry.Item.Key, entry.Item.Value);
-- 
2.43.0


From 9376d02f8e92ca61948047726d79d6d475b5f3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:25 +0000
Subject: [PATCH 019/120] fix: ReverseFind of multi-collections found nothing
 for the greatest key and read before the smallest

---
 stingraykit/collection/MultiMapDictionary.h | 2 +-
 stingraykit/collection/SortedMultiSet.h     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/collection/MultiMapDictionary.h b/stingraykit/collection/MultiMapDictionary.h
index 8040b06..36553d3 100644
--- a/stingraykit/collection/MultiMapDictionary.h
+++ b/stingraykit/collection/MultiMapDictionary.h
@@ -122,7 +122,7 @@ namespace stingray
 			using cri = typename MapType::const_reverse_iterator;
 
 			const auto it = _map->upper_bound(key);
-			if (it == _map->end() || KeyCompareType()(cri(it)->first, key))
+			if (it == _map->begin() || KeyCompareType()(cri(it)->first, key))
 				return MakeEmptyEnumerator();
 
 			return WrapMapEnumerator(EnumeratorFromStlIterators(cri(it), _map->crend(), GetMapHolder()));
diff --git a/stingraykit/collection/SortedMultiSet.h b/stingraykit/collection/SortedMultiSet.h
index 67baf35..c70306e 100644
--- a/stingraykit/collection/SortedMultiSet.h
+++ b/stingraykit/collection/SortedMultiSet.h
@@ -112,7 +112,7 @@ namespace stingray
 			using cri = typename SetType::const_reverse_iterator;
 
 			const auto it = _items->upper_bound(value);
-			if (it == _items->end() || CompareType_()(*cri(it), value))
+			if (it == _items->begin() || CompareType_()(*cri(it), value))
 				return MakeEmptyEnumerator();
 
 			return EnumeratorFromStlIterators(cri(it), _items->crend(), GetItemsHolder());
-- 
2.43.0


From 043e46577e264fbc3aa2a6171a2de661277b2537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:15 +0000
Subject: [PATCH 020/120] fix: flat_map and flat_set copied or moved with an
 allocator lost their comparer

---
 stingraykit/collection/flat_map.h | 4 ++--
 stingraykit/collection/flat_set.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/stingraykit/collection/flat_map.h b/stingraykit/collection/flat_map.h
index c6d44b6..1748db1 100644
--- a/stingraykit/collection/flat_map.h
+++ b/stingraykit/collection/flat_map.h
@@ -99,11 +99,11 @@ namespace stingray
 		{ }
 
 		flat_map(const flat_map& other, const Allocator& alloc)
-			: _container(other._container, alloc), _cmp(Compare())
+			: _container(other._container, alloc), _cmp(other._cmp)
 		{ }
 
 		flat_map(flat_map&& other, const Allocator& alloc)
-			: _container(std::move(other._container), alloc), _cmp(Compare())
+			: _container(std::move(other._container), alloc), _cmp(other._cmp)
 		{ }
 
 		flat_map(std::initializer_list<value_type> list, const Compare& comp = Compare(), const Allocator& alloc = Allocator())
diff --git a/stingraykit/collection/flat_set.h b/stingraykit/collection/flat_set.h
index fdd596d..b5f11f1 100644
--- a/stingraykit/collection/flat_set.h
+++ b/stingraykit/collection/flat_set.h
@@ -70,11 +70,11 @@ namespace stingray
 		{ }
 
 		flat_set(const flat_set& other, const Allocator& alloc)
-			: _container(other._container, alloc), _cmp(Compare())
+			: _container(other._container, alloc), _cmp(other._cmp)
 		{ }
 
 		flat_set(flat_set&& other, const Allocator& alloc)
-			: _container(std::move(other._container), alloc), _cmp(Compare())
+			: _container(std::move(other._container), alloc), _cmp(other._cmp)
 		{ }
 
 		flat_set(std::initializer_list<value_type> list, const Compare& comp = Compare(), const Allocator& alloc = Allocator())
-- 
2.43.0


From dff0b48b182e9fd45b9954ea5c1c8bd62f3f0580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:31 +0000
Subject: [PATCH 021/120] fix: ordered_map and ordered_set lost their content
 on self-assignment and their comparer when copied

---
 stingraykit/collection/ordered_map.h | 10 +++-------
 stingraykit/collection/ordered_set.h | 10 +++-------
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/stingraykit/collection/ordered_map.h b/stingraykit/collection/ordered_map.h
index 6ef90f1..73957fa 100644
--- a/stingraykit/collection/ordered_map.h
+++ b/stingraykit/collection/ordered_map.h
@@ -180,11 +180,11 @@ namespace stingray
 		{ }
 
 		ordered_map(const ordered_map& other)
-			: ordered_map(other.begin(), other.end(), other._alloc)
+			: ordered_map(other.begin(), other.end(), other.key_comp(), other._alloc)
 		{ }
 
 		ordered_map(const ordered_map& other, const Allocator& alloc)
-			: ordered_map(other.begin(), other.end(), alloc)
+			: ordered_map(other.begin(), other.end(), other.key_comp(), alloc)
 		{ }
 
 		ordered_map(ordered_map&& other, const Allocator& alloc)
@@ -200,11 +200,7 @@ namespace stingray
 		{ }
 
 		ordered_map& operator = (const ordered_map& other)
-		{
-			clear();
-			insert(other.begin(), other.end());
-			return *this;
-		}
+		{ return *this = ordered_map(other); }
 
 		ordered_map& operator = (std::initializer_list<value_type> list)
 		{
diff --git a/stingraykit/collection/ordered_set.h b/stingraykit/collection/ordered_set.h
index 3b21970..b878c0b 100644
--- a/stingraykit/collection/ordered_set.h
+++ b/stingraykit/collection/ordered_set.h
@@ -156,11 +156,11 @@ namespace stingray
 		{ }
 
 		ordered_set(const ordered_set& other)
-			: ordered_set(other.begin(), other.end(), other._alloc)
+			: ordered_set(other.begin(), other.end(), other.key_comp(), other._alloc)
 		{ }
 
 		ordered_set(const ordered_set& other, const Allocator& alloc)
-			: ordered_set(other.begin(), other.end(), alloc)
+			: ordered_set(other.begin(), other.end(), other.key_comp(), alloc)
 		{ }
 
 		ordered_set(ordered_set&& other, const Allocator& alloc)
@@ -176,11 +176,7 @@ namespace stingray
 		{ }
 
 		ordered_set& operator = (const ordered_set& other)
-		{
-			clear();
-			insert(other.begin(), other.end());
-			return *this;
-		}
+		{ return *this = ordered_set(other); }
 
 		ordered_set& operator = (std::initializer_list<value_type> list)
 		{
-- 
2.43.0


From 4970522e64d9de4c2160a417f410ec450697f28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:44 +0000
Subject: [PATCH 022/120] fix: Range::Split: Last() points to the last fragment
 when the size is a multiple of the fragment size

---
 stingraykit/collection/Range.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/collection/Range.h b/stingraykit/collection/Range.h
index f4d4edc..b239ee3 100644
--- a/stingraykit/collection/Range.h
+++ b/stingraykit/collection/Range.h
@@ -721,7 +721,7 @@ namespace stingray
 
 			Self& Last()
 			{
-				_it = std::next(_begin, AlignDown(std::distance(_begin, _end), _maxFragmentSize));
+				_it = _begin != _end ? std::next(_begin, AlignDown(std::distance(_begin, _end) - 1, _maxFragmentSize)) : _end;
 				_value.reset();
 				return *this;
 			}
-- 
2.43.0


From 1dee7511bf837dc0050ee4590d5b7e95fda3f08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:44 +0000
Subject: [PATCH 023/120] fix: Range::Flatten: begin() equals end() when every
 sub-range is empty

---
 stingraykit/collection/Range.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stingraykit/collection/Range.h b/stingraykit/collection/Range.h
index b239ee3..c9331a3 100644
--- a/stingraykit/collection/Range.h
+++ b/stingraykit/collection/Range.h
@@ -819,6 +819,12 @@ namespace stingray
 				_range.Last();
 				_currentSubRange = FindPrev();
 
+				if (!_currentSubRange && _range.Valid())
+				{
+					_range.Last();
+					_range.Next();
+				}
+
 				return *this;
 			}
 
-- 
2.43.0


From efe17b5d5aca7e0c9f9381ebb696f19ef435a70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:44 +0000
Subject: [PATCH 024/120] fix: Range::Reverse: position of an empty range and
 moves to and from the end

---
 stingraykit/collection/Range.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/stingraykit/collection/Range.h b/stingraykit/collection/Range.h
index c9331a3..c7ca698 100644
--- a/stingraykit/collection/Range.h
+++ b/stingraykit/collection/Range.h
@@ -377,13 +377,24 @@ namespace stingray
 			}
 
 			size_t GetPosition() const
-			{ return static_cast<int>(_impl.GetSize()) - static_cast<int>(_impl.GetPosition()) - (_implBeforeBegin ? 0 : 1); }
+			{ return Valid() ? _impl.GetSize() - _impl.GetPosition() - 1 : _impl.GetSize(); }
 
 			size_t GetSize() const
 			{ return _impl.GetSize(); }
 
 			Self& Move(int distance)
-			{ _impl.Move(-distance); return *this; }
+			{
+				STINGRAYKIT_CHECK(GetPosition() + distance <= GetSize(), IndexOutOfRangeException(GetPosition() + distance, GetSize()));
+
+				if (distance == 0)
+					return *this;
+
+				const bool toEnd = GetPosition() + distance == GetSize();
+				_impl.Move((toEnd ? 1 : 0) - (_implBeforeBegin ? 1 : 0) - distance);
+				_implBeforeBegin = toEnd;
+
+				return *this;
+			}
 		};
 
 
-- 
2.43.0


From 614e2622e7ba50412e9c6a1b4af58104f09cd4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:46 +0000
Subject: [PATCH 025/120] fix: Range::Zip: last element of ranges that can't go
 back from their end

---
 stingraykit/collection/Range.h | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/stingraykit/collection/Range.h b/stingraykit/collection/Range.h
index c7ca698..8dbc257 100644
--- a/stingraykit/collection/Range.h
+++ b/stingraykit/collection/Range.h
@@ -979,18 +979,14 @@ namespace stingray
 
 			Self& Last()
 			{
+				size_t count = 0;
+				for (First(); Valid(); Next())
+					++count;
+
 				First();
-				bool empty = true;
-				while (Valid())
-				{
+				for (size_t index = 1; index < count; ++index)
 					Next();
-					empty = false;
-				}
-
-				if (!empty)
-					Prev();
 
-				_value.reset();
 				return *this;
 			}
 		};
-- 
2.43.0


From 3c057c59856d01044649f94a2f85ee42988b1741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:10 +0000
Subject: [PATCH 026/120] fix: variant self-assignment destroyed its value
 before copying it

---
 stingraykit/variant.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/stingraykit/variant.h b/stingraykit/variant.h
index 581a6b3..79f54d2 100644
--- a/stingraykit/variant.h
+++ b/stingraykit/variant.h
@@ -309,12 +309,18 @@ namespace stingray
 
 		void assign(const variant& other)
 		{
+			if (this == &other)
+				return;
+
 			base::Destruct();
 			Assign(other);
 		}
 
 		void assign(variant&& other)
 		{
+			if (this == &other)
+				return;
+
 			base::Destruct();
 			Assign(std::move(other));
 		}
@@ -445,12 +451,18 @@ namespace stingray
 
 		void assign(const variant& other)
 		{
+			if (this == &other)
+				return;
+
 			base::Destruct();
 			Assign(other);
 		}
 
 		void assign(variant&& other)
 		{
+			if (this == &other)
+				return;
+
 			base::Destruct();
 			Assign(std::move(other));
 		}
-- 
2.43.0


From 270b89edcd4ef90f409ec44f42e207e0c8bd19a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:10 +0000
Subject: [PATCH 027/120] fix: variant stayed destroyed after a non-standard
 exception from the value being stored

---
 stingraykit/variant.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/variant.h b/stingraykit/variant.h
index 79f54d2..4e2ed8a 100644
--- a/stingraykit/variant.h
+++ b/stingraykit/variant.h
@@ -524,7 +524,7 @@ namespace stingray
 				this->_storage.template Ctor<T>(std::forward<Us>(args)...);
 				this->_type = IndexOfTypeListItem<TypeList, T>::Value;
 			}
-			catch (const std::exception& ex)
+			catch (...)
 			{ AssignDefault(); throw; }
 		}
 
@@ -537,7 +537,7 @@ namespace stingray
 				this->_storage.template Ctor<typename Decay<T>::ValueT>(std::forward<T>(val));
 				this->_type = IndexOfTypeListItem<TypeList, typename Decay<T>::ValueT>::Value;
 			}
-			catch (const std::exception& ex)
+			catch (...)
 			{ AssignDefault(); throw; }
 		}
 
-- 
2.43.0


From 7418031e41b6c8030269aa8128f5c92451252953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:10 +0000
Subject: [PATCH 028/120] fix: any lost its value on self-assignment

---
 stingraykit/any.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stingraykit/any.h b/stingraykit/any.h
index 331d40d..f40f9e6 100644
--- a/stingraykit/any.h
+++ b/stingraykit/any.h
@@ -287,6 +287,9 @@ namespace stingray
 
 		any& operator = (const any& other)
 		{
+			if (this == &other)
+				return *this;
+
 			Destroy();
 			Copy(other);
 			return *this;
@@ -294,6 +297,9 @@ namespace stingray
 
 		any& operator = (any&& other)
 		{
+			if (this == &other)
+				return *this;
+
 			Destroy();
 			Move(std::move(other));
 			return *this;
-- 
2.43.0


From 46c50cdee573ccf93eeb2394d7b63c72f8e6a816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:10 +0000
Subject: [PATCH 029/120] fix: any destroyed garbage after the value being
 stored threw an exception

---
 stingraykit/any.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/any.h b/stingraykit/any.h
index f40f9e6..ac863e7 100644
--- a/stingraykit/any.h
+++ b/stingraykit/any.h
@@ -328,8 +328,8 @@ namespace stingray
 		{
 			typedef typename Decay<T>::ValueT RawType;
 
-			_type = Detail::any::CppTypeToAnyUnionType<RawType>::Value;
 			Detail::any::AnyValAccessor<Detail::any::CppTypeToAnyUnionType<RawType>::Value>::Set(_data, std::forward<T>(val));
+			_type = Detail::any::CppTypeToAnyUnionType<RawType>::Value;
 		}
 
 		template < typename T >
-- 
2.43.0


From d9aa11b09499ba1d83303e1b58c61b047b8ec656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:10 +0000
Subject: [PATCH 030/120] fix: inplace_vector lost its elements on
 self-assignment

---
 stingraykit/collection/inplace_vector.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stingraykit/collection/inplace_vector.h b/stingraykit/collection/inplace_vector.h
index 34d68f2..6906b42 100644
--- a/stingraykit/collection/inplace_vector.h
+++ b/stingraykit/collection/inplace_vector.h
@@ -111,6 +111,9 @@ namespace stingray
 
 		inplace_vector& operator = (const inplace_vector& other)
 		{
+			if (this == &other)
+				return *this;
+
 			clear();
 			Copy(other);
 			return *this;
@@ -118,6 +121,9 @@ namespace stingray
 
 		inplace_vector& operator = (inplace_vector&& other)
 		{
+			if (this == &other)
+				return *this;
+
 			clear();
 			Move(std::move(other));
 			return *this;
-- 
2.43.0


From 90b1dfb3fa25dc512642657128128ff62e4850c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:18 +0000
Subject: [PATCH 031/120] fix: serialized floating point values lost all but 6
 digits

---
 stingraykit/serialization/FloatString.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/stingraykit/serialization/FloatString.cpp b/stingraykit/serialization/FloatString.cpp
index f34b8f8..7859e91 100644
--- a/stingraykit/serialization/FloatString.cpp
+++ b/stingraykit/serialization/FloatString.cpp
@@ -10,6 +10,7 @@
 #include <stingraykit/SystemException.h>
 
 #include <stdio.h>
+#include <stdlib.h>
 
 namespace stingray
 {
@@ -17,8 +18,16 @@ namespace stingray
 	FloatString::FloatString(double value)
 	{
 		char buf[32];
-		int r = snprintf(buf, sizeof(buf), "%lg", value);
-		STINGRAYKIT_CHECK(r > 0, "cannot serialize double value");
+
+		// the shortest representation which is read back as the same value
+		for (int precision = 6; precision <= 17; ++precision)
+		{
+			int r = snprintf(buf, sizeof(buf), "%.*lg", precision, value);
+			STINGRAYKIT_CHECK(r > 0, "cannot serialize double value");
+
+			if (value != value || strtod(buf, NULL) == value)
+				break;
+		}
 
 		_str = buf;
 	}
-- 
2.43.0


From 9be69423300171f70fd76825d21547c71015c059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:39 +0000
Subject: [PATCH 032/120] fix: checked integer deserializer refused every value
 of long types

---
 stingraykit/serialization/IntegerDeserializer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stingraykit/serialization/IntegerDeserializer.h b/stingraykit/serialization/IntegerDeserializer.h
index 3524da1..3a81b07 100644
--- a/stingraykit/serialization/IntegerDeserializer.h
+++ b/stingraykit/serialization/IntegerDeserializer.h
@@ -29,10 +29,10 @@ namespace stingray
 			template < typename Container_ >
 			Integer_ operator()(Container_ contatiner) const
 			{
-				const Container_ begin = static_cast<Container_>(std::numeric_limits<Integer_>::min());
-				const Container_ end = static_cast<Container_>(std::numeric_limits<Integer_>::max()) + 1;
-				STINGRAYKIT_CHECK_RANGE(contatiner, begin, end);
-				return static_cast<Integer_>(contatiner);
+				const Integer_ integer = static_cast<Integer_>(contatiner);
+				STINGRAYKIT_CHECK(static_cast<Container_>(integer) == contatiner,
+						IndexOutOfRangeException(contatiner, std::numeric_limits<Integer_>::min(), std::numeric_limits<Integer_>::max()));
+				return integer;
 			}
 		};
 
-- 
2.43.0


From 1733265d5e3da64f6d580d7824b1bb4d12ad7141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:39 +0000
Subject: [PATCH 033/120] fix: pair deserializer accepted a list of less than
 two elements

---
 stingraykit/serialization/Serialization.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stingraykit/serialization/Serialization.h b/stingraykit/serialization/Serialization.h
index d235437..66a14aa 100644
--- a/stingraykit/serialization/Serialization.h
+++ b/stingraykit/serialization/Serialization.h
@@ -768,6 +768,7 @@ namespace stingray
 			typedef PairDeserializer<K, V> helper_type;
 			helper_type helper(pair, _context);
 			for_each(Bind(&helper_type::Deserialize, &helper, _collection, _1));
+			STINGRAYKIT_CHECK(helper._index == 2, std::runtime_error("pair must contain two elements"));
 			return *this;
 		}
 
-- 
2.43.0


From 730e47f35c3a6594f7ca6e85bfa84df7cadb6863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:39 +0000
Subject: [PATCH 034/120] fix: variant deserializer ignored an alternative
 index out of range

---
 stingraykit/serialization/Serialization.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stingraykit/serialization/Serialization.h b/stingraykit/serialization/Serialization.h
index 66a14aa..34ab505 100644
--- a/stingraykit/serialization/Serialization.h
+++ b/stingraykit/serialization/Serialization.h
@@ -735,6 +735,7 @@ namespace stingray
 		{
 			size_t index = 0;
 			Deserialize("index", index);
+			STINGRAYKIT_CHECK_RANGE(index, (size_t)GetTypeListLength<Types_>::Value);
 			For<GetTypeListLength<Types_>::Value, SerializationUtils::VariantObjectCreator<Types_>::template CreatorFunc>::Do(index, wrap_ref(v));
 			apply_visitor(SerializationUtils::VariantDeserializeVisitor<ObjectIStream>(*this), v);
 		}
-- 
2.43.0


From 81cdc97700d37004eaf4f00b7db9b74b8102b7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:39 +0000
Subject: [PATCH 035/120] fix: deserializer of optional kept the old value of a
 member which is absent

---
 stingraykit/serialization/Serializer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/serialization/Serializer.h b/stingraykit/serialization/Serializer.h
index 21b5ecd..24edaca 100644
--- a/stingraykit/serialization/Serializer.h
+++ b/stingraykit/serialization/Serializer.h
@@ -202,7 +202,7 @@ namespace stingray
 		optional<DeserializationHelper>		_helper;
 
 	public:
-		explicit Deserializer(optional<T>& object) : _helper(DeserializationHelper(object)) { }
+		explicit Deserializer(optional<T>& object) : _helper(DeserializationHelper(object)) { object = null; }
 
 		optional<DeserializationHelper>& operator * () { return _helper; }
 	};
-- 
2.43.0


From f4c8d7f0721653720cc8992a4d0a52999cf9d664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:39 +0000
Subject: [PATCH 036/120] fix: BytesOwner was serialized as a list it could not
 be deserialized from

---
 stingraykit/serialization/Serialization.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stingraykit/serialization/Serialization.h b/stingraykit/serialization/Serialization.h
index 34ab505..ade8911 100644
--- a/stingraykit/serialization/Serialization.h
+++ b/stingraykit/serialization/Serialization.h
@@ -371,6 +371,10 @@ namespace stingray
 		ObjectOStream& serialize(ByteData data)
 		{ Write(data); return *this; }
 
+		template<typename T>
+		ObjectOStream& serialize(const BasicBytesOwner<T>& data)
+		{ return serialize(BasicByteData<T>(data.data(), data.size())); }
+
 		ObjectOStream& serialize(const std::string & str)
 		{
 			Write(str);
-- 
2.43.0


From f56835be11a09f363e75a880bdb905282c0f5e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:24 +0000
Subject: [PATCH 037/120] fix: FromString took a sign without digits for zero

---
 stingraykit/string/ToString.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stingraykit/string/ToString.h b/stingraykit/string/ToString.h
index 9f63300..55e125a 100644
--- a/stingraykit/string/ToString.h
+++ b/stingraykit/string/ToString.h
@@ -98,6 +98,8 @@ namespace stingray
 				if (negative || str[0] == '+')
 					++index;
 
+				STINGRAYKIT_CHECK(index < str.size(), FormatException(ToString(str)));
+
 				for (size_t index2 = index; index2 < str.size(); ++index2)
 				{
 					const char ch = str[index2];
-- 
2.43.0


From fb75de5b02ecb32e3f2a364e11e0459c92b496d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:24 +0000
Subject: [PATCH 038/120] fix: StringParse skipped text before a leading
 literal of the pattern

---
 stingraykit/string/StringParse.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stingraykit/string/StringParse.h b/stingraykit/string/StringParse.h
index 9e3598f..f35459f 100644
--- a/stingraykit/string/StringParse.h
+++ b/stingraykit/string/StringParse.h
@@ -158,6 +158,9 @@ namespace stingray
 			if (substr_pos == std::string::npos)
 				return false;
 
+			if (!index && substr_pos != current_string_pos)
+				return false;
+
 			if (index)
 			{
 				if (!(substr_pos - current_string_pos > 0 && Detail::TryReadArgument(std::string(string, current_string_pos, substr_pos - current_string_pos), index - 1, args...)))
-- 
2.43.0


From 60ef2aa4a46e0c32cd13a21175ac40bebf5cda9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:24 +0000
Subject: [PATCH 039/120] fix: StringParse accepted incomplete and overflowing
 floating point numbers

---
 stingraykit/string/StringParse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/string/StringParse.h b/stingraykit/string/StringParse.h
index f35459f..1030aea 100644
--- a/stingraykit/string/StringParse.h
+++ b/stingraykit/string/StringParse.h
@@ -60,7 +60,7 @@ namespace stingray
 			static bool Do(const std::string& str, T& value, long)
 			{
 				std::istringstream stream(str);
-				return (stream >> value).eof();
+				return (stream >> value) && stream.eof();
 			}
 
 			template < typename T, typename ConvertFunc >
-- 
2.43.0


From 078e5b9c47a142fe3dc2f5ae5e66e40b183da242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:24 +0000
Subject: [PATCH 040/120] fix: ToHumanReadableSize failed for sizes close to
 the maximum

---
 stingraykit/string/HumanReadableSize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/string/HumanReadableSize.cpp b/stingraykit/string/HumanReadableSize.cpp
index 6a72658..f86ec93 100644
--- a/stingraykit/string/HumanReadableSize.cpp
+++ b/stingraykit/string/HumanReadableSize.cpp
@@ -39,7 +39,7 @@ namespace stingray
 			u64 rounded = roundedInUnits * measUnit;
 			u64 delta = size * allowedErrorFactor;
 
-			if (rounded >= size - delta && rounded <= size + delta)
+			if (rounded >= size ? rounded - size <= delta : size - rounded <= delta)
 			{
 				const std::string sizeString = ToString(roundedInUnits) + whitespace;
 				return i > 0 ? sizeString + Suffixes[i - 1] : sizeString;
-- 
2.43.0


From 472588e354d8a1063b358140d5c97dfb03e691d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:24 +0000
Subject: [PATCH 041/120] fix: FromHumanReadableSize returned a wrong value for
 sizes which do not fit

---
 stingraykit/string/HumanReadableSize.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stingraykit/string/HumanReadableSize.cpp b/stingraykit/string/HumanReadableSize.cpp
index f86ec93..11f92f5 100644
--- a/stingraykit/string/HumanReadableSize.cpp
+++ b/stingraykit/string/HumanReadableSize.cpp
@@ -65,7 +65,11 @@ namespace stingray
 
 			for (size_t i = 0; i < Suffixes.size(); ++i)
 				if (suffix == Suffixes[i])
-					return num * ((u64)1 << (10 * (i + 1)));
+				{
+					const u64 measUnit = (u64)1 << (10 * (i + 1));
+					STINGRAYKIT_CHECK(num <= std::numeric_limits<u64>::max() / measUnit, IndexOutOfRangeException(str, 0, std::numeric_limits<u64>::max()));
+					return num * measUnit;
+				}
 		}
 
 		STINGRAYKIT_THROW(FormatException(str.copy()));
-- 
2.43.0


From 614ce0ac9eaa0c783228d903047f2062daeb089c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:15 +0000
Subject: [PATCH 042/120] fix: signed overflow after an enumerator with the
 maximum value

---
 stingraykit/EnumToString.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/EnumToString.cpp b/stingraykit/EnumToString.cpp
index ac42e8f..0ebfd07 100644
--- a/stingraykit/EnumToString.cpp
+++ b/stingraykit/EnumToString.cpp
@@ -134,7 +134,7 @@ namespace stingray
 
 		void EnumToStringMapBase::Impl::Init(const Detail::EnumValueHolder* valuesBegin, const Detail::EnumValueHolder* valuesEnd, const std::string& str)
 		{
-			int cur_value = 0;
+			s64 cur_value = 0;
 			for (; valuesBegin != valuesEnd; ++valuesBegin, ++cur_value)
 			{
 				if (valuesBegin->Val != Detail::EnumValueHolder::Uninitialized)
-- 
2.43.0


From 90c0fd7e040d6984cf05c8cbf8200e8b1b0b3120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:15 +0000
Subject: [PATCH 043/120] fix: enum value without bits was printed as an empty
 string

---
 stingraykit/EnumToString.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/EnumToString.cpp b/stingraykit/EnumToString.cpp
index 0ebfd07..5f883f8 100644
--- a/stingraykit/EnumToString.cpp
+++ b/stingraykit/EnumToString.cpp
@@ -60,7 +60,7 @@ namespace stingray
 					break;
 			}
 
-			if (flagged_val != val)
+			if (flagged_val != val || val == 0)
 			{
 				string_ostream s;
 				s << (unsigned)val;
-- 
2.43.0


From bfec38004bbfdaa141218f6c8c2c41aa89cf2e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:48 +0000
Subject: [PATCH 044/120] fix: enum parser skipped a character after a blank

---
 stingraykit/EnumToString.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stingraykit/EnumToString.cpp b/stingraykit/EnumToString.cpp
index 5f883f8..42bf772 100644
--- a/stingraykit/EnumToString.cpp
+++ b/stingraykit/EnumToString.cpp
@@ -112,6 +112,9 @@ namespace stingray
 					bit_val += *s_it;
 				for (; s_it != str.end() && IsWhitespace(*s_it); ++s_it);
 
+				if (s_it != str.end() && *s_it != '|')
+					STINGRAYKIT_THROW("Cannot parse enum class value: '" + str + "'!");
+
 				if (!bit_val.empty())
 				{
 					it = _strToEnum.find(bit_val);
-- 
2.43.0


From 02585dc9e0d0a12027b00e1006ff2012b8f9112f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:04 +0000
Subject: [PATCH 045/120] fix: the last second before the epoch could not be
 converted from broken-down time

---
 stingraykit/time/posix/TimeEngine.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stingraykit/time/posix/TimeEngine.cpp b/stingraykit/time/posix/TimeEngine.cpp
index 940e8a5..e584da6 100644
--- a/stingraykit/time/posix/TimeEngine.cpp
+++ b/stingraykit/time/posix/TimeEngine.cpp
@@ -11,6 +11,7 @@
 #include <stingraykit/thread/atomic/AtomicInt.h>
 #include <stingraykit/SystemException.h>
 
+#include <errno.h>
 #include <time.h>
 #include <sys/time.h>
 
@@ -245,10 +246,10 @@ namespace posix
 		bdt.tm_year = bdTime.Year - 1900;
 #ifdef STINGRAYKIT_32_BIT_TIME_T
 		const s64 result = timegm64(&bdt);
-		STINGRAYKIT_CHECK(result != -1, SystemException(StringBuilder() % "timegm64(" % bdTime % ")"));
 #else
+		errno = 0;
 		const time_t result = timegm(&bdt);
-		STINGRAYKIT_CHECK(result != -1, SystemException(StringBuilder() % "timegm(" % bdTime % ")"));
+		STINGRAYKIT_CHECK(result != -1 || errno == 0, SystemException(StringBuilder() % "timegm(" % bdTime % ")"));
 #endif
 		return (s64)result * 1000 + bdTime.Milliseconds;
 	}
-- 
2.43.0


From 21bdec267db94bb7815142b04be8fecc510f4a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:04 +0000
Subject: [PATCH 046/120] fix: Time::GetMjd was a day late for instants before
 the epoch

---
 stingraykit/time/Time.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stingraykit/time/Time.cpp b/stingraykit/time/Time.cpp
index 39eb941..10e3e1b 100644
--- a/stingraykit/time/Time.cpp
+++ b/stingraykit/time/Time.cpp
@@ -461,7 +461,10 @@ namespace stingray
 
 
 	int Time::GetMjd() const
-	{ return DaysSinceMjd + _milliseconds / (1000 * SecondsPerDay); }
+	{
+		const s64 millisecondsPerDay = 1000ll * SecondsPerDay;
+		return DaysSinceMjd + _milliseconds / millisecondsPerDay - (_milliseconds % millisecondsPerDay < 0 ? 1 : 0);
+	}
 
 
 	u32 Time::GetBcdTime(TimeKind kind) const
-- 
2.43.0


From bbd0f2c3b1730d554c664ce0a428d1387e71c004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:04 +0000
Subject: [PATCH 047/120] fix: NtpTimestamp lost the fraction of a second

---
 stingraykit/time/NtpTimestamp.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/stingraykit/time/NtpTimestamp.cpp b/stingraykit/time/NtpTimestamp.cpp
index 62bbff4..32dc041 100644
--- a/stingraykit/time/NtpTimestamp.cpp
+++ b/stingraykit/time/NtpTimestamp.cpp
@@ -12,11 +12,11 @@ namespace stingray
 
 	Time NtpTimestamp::ToTime() const
 	{
-		u32 integerPart = _timestamp >> 32;
-		u64 seconds = integerPart - DifferenceBetweenUnixNtpTime;
+		const u32 integerPart = _timestamp >> 32;
+		const s64 seconds = integerPart - DifferenceBetweenUnixNtpTime;
 
-		u32 fractionPart = _timestamp - integerPart;
-		u64 milliSeconds = fractionPart / ((u64)1 << 32);
+		const u32 fractionPart = _timestamp;
+		const s64 milliSeconds = ((u64)fractionPart * 1000 + ((u64)1 << 31)) >> 32;
 
 		return Time(seconds * 1000 + milliSeconds);
 	};
@@ -24,8 +24,9 @@ namespace stingray
 
 	NtpTimestamp NtpTimestamp::FromTime(Time time)
 	{
-		u32 integerPart = time.GetSeconds() +  DifferenceBetweenUnixNtpTime;
-		u32 fractionPart = time.GetSeconds() * ((u64)1 << 32);
+		const s64 milliseconds = time.GetMilliseconds() + DifferenceBetweenUnixNtpTime * 1000;
+		const u32 integerPart = milliseconds / 1000;
+		const u32 fractionPart = ((u64)(milliseconds % 1000) << 32) / 1000;
 
 		u64 timestamp = ((u64)integerPart << 32) | fractionPart;
 
-- 
2.43.0


From 5c3695190d3c7506b0d2b31818e85176c6432a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:04 +0000
Subject: [PATCH 048/120] fix: TimeDuration::ToString overflowed on the
 shortest duration in a format without hours

---
 stingraykit/time/Time.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/time/Time.cpp b/stingraykit/time/Time.cpp
index 10e3e1b..3778ad2 100644
--- a/stingraykit/time/Time.cpp
+++ b/stingraykit/time/Time.cpp
@@ -134,7 +134,7 @@ namespace stingray
 		const bool negative = GetMicroseconds() / ArrayGet(MicrosecondsDivisors, std::min(maxPrecision, ArraySize(MicrosecondsDivisors) - 1)) < 0;
 
 		const s64 hours = hasHours ? Abs(_microseconds / Hour().GetMicroseconds()) : 0;
-		const s64 minutes = Abs(_microseconds < 0 ? _microseconds + hours * Hour().GetMicroseconds() : _microseconds - hours * Hour().GetMicroseconds()) / Minute().GetMicroseconds();
+		const s64 minutes = Abs((hasHours ? _microseconds % Hour().GetMicroseconds() : _microseconds) / Minute().GetMicroseconds());
 		const s64 seconds = Abs(_microseconds % Minute().GetMicroseconds()) / Second().GetMicroseconds();
 		const s64 microseconds = Abs(_microseconds % Second().GetMicroseconds());
 
-- 
2.43.0


From cbcf60309574070c8b55b51549a1bc63959438e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:04 +0000
Subject: [PATCH 049/120] fix: TimeDuration::ToString counted escaped letters
 as fields of the format

---
 stingraykit/time/Time.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stingraykit/time/Time.cpp b/stingraykit/time/Time.cpp
index 3778ad2..0a43a4d 100644
--- a/stingraykit/time/Time.cpp
+++ b/stingraykit/time/Time.cpp
@@ -115,7 +115,9 @@ namespace stingray
 		{
 			const char c = format[pos];
 
-			if (c == 'h')
+			if (c == '\\')
+				++pos;
+			else if (c == 'h')
 				hasHours = true;
 			else if (c == 'm')
 				hasMinutes = true;
-- 
2.43.0


From dcae443ec02b504425f12249356b862ad3391fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:04 +0000
Subject: [PATCH 050/120] fix: TimeZone::FromString accepted hours and minutes
 out of range

---
 stingraykit/time/Time.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stingraykit/time/Time.cpp b/stingraykit/time/Time.cpp
index 0a43a4d..79b7ace 100644
--- a/stingraykit/time/Time.cpp
+++ b/stingraykit/time/Time.cpp
@@ -288,6 +288,8 @@ namespace stingray
 			minutes = strSize > baseIndex + 2 ? stingray::FromString<int>(str.substr(baseIndex + 2, 2)) : 0;
 		}
 
+		STINGRAYKIT_CHECK(hours >= 0 && hours < HoursPerDay && minutes >= 0 && minutes < MinutesPerHour, FormatException(str));
+
 		const int value = hours * MinutesPerHour + minutes;
 		return TimeZone(!sign || *sign == '+' ? value : -value);
 	}
-- 
2.43.0


From 8aad9c729997ea384ab568f57f0c450fd6834ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:04 +0000
Subject: [PATCH 051/120] fix: TimeUtility::FromIso8601 accepted fields out of
 range

---
 stingraykit/time/Time.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/stingraykit/time/Time.cpp b/stingraykit/time/Time.cpp
index 79b7ace..a2a61dd 100644
--- a/stingraykit/time/Time.cpp
+++ b/stingraykit/time/Time.cpp
@@ -45,6 +45,15 @@ namespace stingray
 		u8 BcdEncode(u8 value)
 		{ return ((value / 10) << 4) + value % 10; }
 
+		bool IsValidDate(int year, int month, int day)
+		{ return month >= 1 && month <= 12 && day >= 1 && day <= BrokenDownTime::GetMaxDaysInMonth(year, month); }
+
+		bool IsValidTime(int hours, int minutes, s64 seconds)
+		{ return hours >= 0 && hours <= HoursPerDay && minutes >= 0 && minutes < MinutesPerHour && seconds >= 0 && seconds <= SecondsPerMinute; } // "24:00:00" and leap seconds are valid
+
+		bool IsValidOffset(int hours, int minutes)
+		{ return hours >= 0 && hours < HoursPerDay && minutes >= 0 && minutes < MinutesPerHour; }
+
 		int GetMaxDaysInYear(int year)
 		{ return year % 4 == 0 && (year % 100 != 0 || year % 400 == 0) ? 366 : 365; }
 
@@ -525,6 +534,8 @@ namespace stingray
 				result = TryFromDate(uppercase);
 
 			STINGRAYKIT_CHECK(result, FormatException(str));
+			STINGRAYKIT_CHECK(IsValidDate(result->Year, result->Month, result->Day), FormatException(str));
+			STINGRAYKIT_CHECK(IsValidTime(result->Hours, result->Minutes, result->Seconds.GetSeconds()), FormatException(str));
 
 			const TimeDuration seconds = result->Seconds.RoundToMilliseconds();
 			const BrokenDownTime brokenDown((seconds % TimeDuration::Second()).GetMilliseconds(), seconds.GetSeconds(), result->Minutes, result->Hours, 0, result->Day, result->Month, 0, result->Year);
@@ -573,7 +584,7 @@ namespace stingray
 					offsetHours,
 					offsetMinutes);
 
-			if (!success)
+			if (!success || !IsValidOffset(offsetHours, offsetMinutes))
 				return null;
 
 			result.Offset = TimeDuration::FromHours(offsetHours) + TimeDuration::FromMinutes(offsetMinutes);
-- 
2.43.0


From 644846231a856bf422688a2f1256190ba41eb2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:44 +0000
Subject: [PATCH 052/120] fix: Time::FromString accepted fields out of range
 and text after the date

---
 stingraykit/time/Time.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/stingraykit/time/Time.cpp b/stingraykit/time/Time.cpp
index a2a61dd..d355282 100644
--- a/stingraykit/time/Time.cpp
+++ b/stingraykit/time/Time.cpp
@@ -352,6 +352,8 @@ namespace stingray
 		s16 utcHour = 0;
 		s16 utcMinute = 0;
 
+		int parsed = 0;
+
 		bool haveDate = false;
 		bool haveTime = false;
 		bool haveSeconds = false;
@@ -359,7 +361,7 @@ namespace stingray
 		bool haveUtcHours = false;
 		bool haveUtcMinutes = false;
 
-		int components = sscanf(str.c_str(), "%hd.%hd.%hd %hd:%hd:%hd", &day, &month, &year, &hour, &minute, &second);
+		int components = sscanf(str.c_str(), "%hd.%hd.%hd%n %hd:%hd%n:%hd%n", &day, &month, &year, &parsed, &hour, &minute, &parsed, &second, &parsed);
 		if (components >= 3)
 		{
 			haveDate = true;
@@ -370,7 +372,7 @@ namespace stingray
 		}
 		else
 		{
-			components = sscanf(str.c_str(), "%hd/%hd/%hd %hd:%hd:%hd", &day, &month, &year, &hour, &minute, &second);
+			components = sscanf(str.c_str(), "%hd/%hd/%hd%n %hd:%hd%n:%hd%n", &day, &month, &year, &parsed, &hour, &minute, &parsed, &second, &parsed);
 			if (components >= 3)
 			{
 				haveDate = true;
@@ -381,7 +383,7 @@ namespace stingray
 			}
 			else
 			{
-				components = sscanf(str.c_str(), "%hd:%hd:%hd", &hour, &minute, &second);
+				components = sscanf(str.c_str(), "%hd:%hd%n:%hd%n", &hour, &minute, &parsed, &second, &parsed);
 				if (components >= 2)
 				{
 					haveTime = true;
@@ -390,7 +392,7 @@ namespace stingray
 				}
 				else
 				{
-					components = sscanf(str.c_str(), "%hd-%hd-%hdT%hd:%hd:%hd%c%hd:%hd", &year, &month, &day, &hour, &minute, &second, &utcSign, &utcHour, &utcMinute);
+					components = sscanf(str.c_str(), "%hd-%hd-%hd%nT%hd:%hd%n:%hd%n%c%n%hd%n:%hd%n", &year, &month, &day, &parsed, &hour, &minute, &parsed, &second, &parsed, &utcSign, &parsed, &utcHour, &parsed, &utcMinute, &parsed);
 					STINGRAYKIT_CHECK(components >= 3, FormatException(str));
 
 					haveDate = true;
@@ -409,6 +411,7 @@ namespace stingray
 		}
 		STINGRAYKIT_CHECK(haveDate || haveTime, FormatException(str));
 		STINGRAYKIT_CHECK(haveTime || !haveSeconds, FormatException(str));
+		STINGRAYKIT_CHECK((size_t)parsed == str.size(), FormatException(str));
 
 		STINGRAYKIT_CHECK(
 				!haveUtcSign
@@ -416,12 +419,17 @@ namespace stingray
 								|| ((utcSign == '+' || utcSign == '-') && haveUtcHours)),
 				FormatException(str));
 
+		STINGRAYKIT_CHECK(!haveTime || IsValidTime(hour, minute, haveSeconds ? second : 0), FormatException(str));
+		STINGRAYKIT_CHECK(IsValidOffset(utcHour, utcMinute), FormatException(str));
+
 		BrokenDownTime bdt;
 		if (haveDate)
 		{
 			bdt.MonthDay		= day;
 			bdt.Month			= month;
 			bdt.Year			= year > 100 ? year : year > 30 ? 1900 + year : 2000 + year;
+
+			STINGRAYKIT_CHECK(year >= 0 && IsValidDate(bdt.Year, month, day), FormatException(str));
 		}
 		else
 		{
-- 
2.43.0


From c3b9942ebc687b37beb4d231e57ee7b0578d663a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:44 +0000
Subject: [PATCH 053/120] fix: ISO 8601 durations with more than 32767 days,
 hours, minutes or seconds were printed wrong and not read

---
 stingraykit/time/Time.cpp | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/stingraykit/time/Time.cpp b/stingraykit/time/Time.cpp
index d355282..cb1a118 100644
--- a/stingraykit/time/Time.cpp
+++ b/stingraykit/time/Time.cpp
@@ -663,11 +663,11 @@ namespace stingray
 		{
 			s16					Years;
 			s16					Months;
-			s16					Weeks;
-			s16					Days;
-			s16					Hours;
-			s16					Minutes;
-			s16					Seconds;
+			s32					Weeks;
+			s32					Days;
+			s32					Hours;
+			s32					Minutes;
+			s32					Seconds;
 
 			ParseResult()
 				: Years(0), Months(0), Weeks(0), Days(0), Hours(0), Minutes(0), Seconds(0)
@@ -675,22 +675,26 @@ namespace stingray
 
 			TimeDuration ToTimeDuration(Time base, TimeKind kind) const
 			{
+				const s64 seconds = (((s64)Weeks * DaysPerWeek + Days) * HoursPerDay + Hours) * SecondsPerHour + (s64)Minutes * SecondsPerMinute + Seconds;
+				STINGRAYKIT_CHECK(seconds <= TimeDuration::Max().GetSeconds(), IntegerOverflowException(seconds, 1000000));
+
+				const TimeDuration duration = TimeDuration::FromMicroseconds(seconds * 1000000);
 				if (Years == 0 && Months == 0)
-					return TimeDuration::FromDays(Weeks * DaysPerWeek + Days) + TimeDuration::FromHours(Hours) + TimeDuration::FromMinutes(Minutes) + TimeDuration::FromSeconds(Seconds);
+					return duration;
 
 				const BrokenDownTime bdt = base.BreakDown(kind);
 				return Time::FromBrokenDownTime(
 						BrokenDownTime(
 								bdt.Milliseconds,
-								bdt.Seconds + Seconds,
-								bdt.Minutes + Minutes,
-								bdt.Hours + Hours,
+								bdt.Seconds,
+								bdt.Minutes,
+								bdt.Hours,
 								bdt.WeekDay,
-								bdt.MonthDay + Weeks * DaysPerWeek + Days,
+								bdt.MonthDay,
 								bdt.Month + Months,
 								bdt.YearDay,
 								bdt.Year + Years),
-						kind) - base;
+						kind) - base + duration;
 			}
 		};
 
@@ -796,12 +800,12 @@ namespace stingray
 	{
 		STINGRAYKIT_CHECK(duration >= TimeDuration(), ArgumentException("duration", duration));
 
-		s16 Years = 0;
-		s16 Months = 0;
-		s16 Days = 0;
-		s16 Hours = 0;
-		s16 Minutes = 0;
-		s16 Seconds = 0;
+		s64 Years = 0;
+		s64 Months = 0;
+		s64 Days = 0;
+		s64 Hours = 0;
+		s64 Minutes = 0;
+		s64 Seconds = 0;
 
 		if (!base)
 		{
-- 
2.43.0


From d4ee38ff04c244eb0f619e8cc00be6a50010689d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:44 +0000
Subject: [PATCH 054/120] fix: BrokenDownTime::ToString printed overlapping
 format fields more than once

---
 stingraykit/time/BrokenDownTime.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stingraykit/time/BrokenDownTime.cpp b/stingraykit/time/BrokenDownTime.cpp
index 782438c..438f032 100644
--- a/stingraykit/time/BrokenDownTime.cpp
+++ b/stingraykit/time/BrokenDownTime.cpp
@@ -30,6 +30,9 @@ namespace stingray
 
 			void operator () (const std::string& pattern, size_t patternIndex, size_t offset) const
 			{
+				if (offset < LastPosition)
+					return;
+
 				Stream << string_view(Format.data() + LastPosition, offset - LastPosition);
 
 				switch (patternIndex)
-- 
2.43.0


From de7fba1ded17e45cb5f9082729acc119e14a44a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:21 +0000
Subject: [PATCH 055/120] fix: little-endian bit fields that do not fill an
 integer were read and written wrong

---
 stingraykit/BitsGetter.h | 58 +++++++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 16 deletions(-)

diff --git a/stingraykit/BitsGetter.h b/stingraykit/BitsGetter.h
index 4912240..3198a8f 100644
--- a/stingraykit/BitsGetter.h
+++ b/stingraykit/BitsGetter.h
@@ -87,6 +87,36 @@ namespace stingray
 
 #endif
 
+		template < size_t SizeBits, typename T >
+		struct WidestShiftableType
+		{
+			typedef typename ShiftableType<T>::ValueT					ShiftableT;
+			typedef typename MinimalTypeSelector<SizeBits>::ValueT		MinimalT;
+			typedef typename If<(sizeof(ShiftableT) >= sizeof(MinimalT)), ShiftableT, MinimalT>::ValueT	ValueT;
+		};
+
+		template < size_t SizeBits >
+		struct LittleEndianField
+		{
+			typedef typename MinimalTypeSelector<SizeBits>::ValueT		MinimalT;
+
+			static const size_t TailBits = SizeBits > 8 ? SizeBits % 8 : 0; // bits of the last incomplete byte, the most significant ones of the value
+			static const size_t BodyBits = SizeBits - TailBits;
+
+			static u64 Decode(u64 field)
+			{ return SwapBody(field >> TailBits) | (TailBits ? (field & TailMask()) << (BodyBits % 64) : 0); }
+
+			static u64 Encode(u64 value)
+			{ return (SwapBody(value) << TailBits) | (TailBits ? (value >> (BodyBits % 64)) & TailMask() : 0); }
+
+		private:
+			static u64 TailMask()
+			{ return (1u << TailBits) - 1; }
+
+			static u64 SwapBody(u64 body)
+			{ return SizeBits > 8 ? SwappableType<MinimalT>::Swap(body << ((sizeof(MinimalT) * 8 - BodyBits) % 64)) : body; } // 24 bit values are shifted left, so 11 22 33 becomes 00 33 22 11, not 33 22 11 00
+		};
+
 		template < typename T, bool TIsEnumClass = IsEnumClass<T>::Value >
 		struct BitsGetterResultType
 		{ typedef T ValueT; };
@@ -143,8 +173,7 @@ namespace stingray
 				const size_t BytesRequirement = (OffsetBits + SizeBits + 7) / 8;
 				STINGRAYKIT_CHECK(_buf.size() >= BytesRequirement, IndexOutOfRangeException(BytesRequirement, _buf.size()));
 
-				typedef typename ShiftableType<T>::ValueT					ShiftableT;
-				typedef typename MinimalTypeSelector<SizeBits>::ValueT		MinimalT;
+				typedef typename WidestShiftableType<SizeBits, T>::ValueT	ShiftableT;
 
 				ShiftableT result = ShiftableT();
 				size_t cur_byte = OffsetBits / 8;
@@ -168,7 +197,7 @@ namespace stingray
 					}
 				}
 				if (!BigEndian)
-					result = SwappableType<MinimalT>::Swap(result << (sizeof(MinimalT) * 8 - SizeBits)); //24 bit values are shifted left, so 11 22 33 becomes 00 33 22 11, not 33 22 11 00
+					result = LittleEndianField<SizeBits>::Decode(result);
 				return static_cast<typename BitsGetterResultType<T>::ValueT>(result);
 			}
 		};
@@ -197,8 +226,7 @@ namespace stingray
 				const size_t BytesRequirement = (OffsetBits + SizeBits + 7) / 8;
 				STINGRAYKIT_CHECK(_buf.size() >= BytesRequirement, IndexOutOfRangeException(BytesRequirement, _buf.size()));
 
-				typedef typename ShiftableType<T>::ValueT					ShiftableT;
-				typedef typename MinimalTypeSelector<SizeBits>::ValueT		MinimalT;
+				typedef typename WidestShiftableType<SizeBits, T>::ValueT	ShiftableT;
 
 				ShiftableT result = ShiftableT();
 
@@ -208,7 +236,7 @@ namespace stingray
 					result = (result << 8) | _buf[offset + i];
 
 				if (!BigEndian)
-					result = SwappableType<MinimalT>::Swap(result << (sizeof(MinimalT) * 8 - SizeBits)); //24 bit values are shifted left, so 11 22 33 becomes 00 33 22 11, not 33 22 11 00
+					result = LittleEndianField<SizeBits>::Decode(result);
 				return static_cast<typename BitsGetterResultType<T>::ValueT>(result);
 			}
 
@@ -275,13 +303,12 @@ namespace stingray
 				ByteDataResizer::RequireSize(_buf, required_size, 0);
 				STINGRAYKIT_CHECK(required_size <= _buf.size(), IndexOutOfRangeException(required_size, _buf.size()));
 
-				typedef typename ShiftableType<T>::ValueT			ShiftableT;
-				typedef typename BitsGetterResultType<T>::ValueT	ResType;
-				typedef typename MinimalTypeSelector<SizeBits>::ValueT		MinimalT;
+				typedef typename WidestShiftableType<SizeBits, T>::ValueT	ShiftableT;
+				typedef typename BitsGetterResultType<T>::ValueT			ResType;
 
-				ShiftableT shiftable_val = static_cast<ShiftableT>(static_cast<ResType>(val));
+				ShiftableT shiftable_val = static_cast<typename ShiftableType<T>::ValueT>(static_cast<ResType>(val));
 				if (!BigEndian)
-					shiftable_val = SwappableType<MinimalT>::Swap(shiftable_val);
+					shiftable_val = LittleEndianField<SizeBits>::Encode(shiftable_val);
 
 				size_t cur_byte = OffsetBits / 8;
 				int msb = 8 - (OffsetBits % 8);
@@ -332,13 +359,12 @@ namespace stingray
 				ByteDataResizer::RequireSize(_buf, required_size, 0);
 				STINGRAYKIT_CHECK(required_size <= _buf.size(), IndexOutOfRangeException(required_size, _buf.size()));
 
-				typedef typename ShiftableType<T>::ValueT			ShiftableT;
-				typedef typename BitsGetterResultType<T>::ValueT	ResType;
-				typedef typename MinimalTypeSelector<SizeBits>::ValueT		MinimalT;
+				typedef typename WidestShiftableType<SizeBits, T>::ValueT	ShiftableT;
+				typedef typename BitsGetterResultType<T>::ValueT			ResType;
 
-				ShiftableT shiftable = static_cast<ShiftableT>(static_cast<ResType>(val));
+				ShiftableT shiftable = static_cast<typename ShiftableType<T>::ValueT>(static_cast<ResType>(val));
 				if (!BigEndian)
-					shiftable = SwappableType<MinimalT>::Swap(shiftable);
+					shiftable = LittleEndianField<SizeBits>::Encode(shiftable);
 
 				const size_t offset = OffsetBits / 8;
 				const size_t count = SizeBits / 8;
-- 
2.43.0


From c6afbf063c4d56962620e13bf47633bfd1892483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:17 +0000
Subject: [PATCH 056/120] fix: big integers were compared by their least
 significant blocks first

---
 stingraykit/BigNum.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stingraykit/BigNum.cpp b/stingraykit/BigNum.cpp
index 239689f..acfac91 100644
--- a/stingraykit/BigNum.cpp
+++ b/stingraykit/BigNum.cpp
@@ -589,9 +589,9 @@ namespace stingray
 		if (_units.size() > other._units.size())
 			return false;
 
-		for (size_t i = 0; i < _units.size(); ++i)
-			if (_units[i] < other._units[i])
-				return true;
+		for (size_t i = _units.size(); i > 0; --i)
+			if (_units[i - 1] != other._units[i - 1])
+				return _units[i - 1] < other._units[i - 1];
 
 		return false;
 	}
-- 
2.43.0


From e59f4a354b7da3ce70c3f085766f646d993f5f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:17 +0000
Subject: [PATCH 057/120] fix: a big integer made from the integer zero was not
 recognised as zero

---
 stingraykit/BigNum.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stingraykit/BigNum.h b/stingraykit/BigNum.h
index bba2b60..30799e7 100644
--- a/stingraykit/BigNum.h
+++ b/stingraykit/BigNum.h
@@ -57,7 +57,8 @@ namespace stingray
 		BigUnsignedInteger(T source, typename EnableIf<sizeof(BlockType) >= sizeof(T), Dummy*>::ValueT dummy = 0)
 		{
 			STINGRAYKIT_CHECK(source >= 0, ArgumentException("source", source));
-			_units.push_back(source);
+			if (source != 0)
+				_units.push_back(source);
 		}
 
 		template <typename T>
-- 
2.43.0


From 11f1240c1c83a38495ed3ef2bdde48ef3f408cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:17 +0000
Subject: [PATCH 058/120] fix: BigUnsignedInteger::ToPrimitive gave negative
 numbers for values out of range of a signed type

---
 stingraykit/BigNum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/BigNum.h b/stingraykit/BigNum.h
index 30799e7..4c79f2a 100644
--- a/stingraykit/BigNum.h
+++ b/stingraykit/BigNum.h
@@ -70,7 +70,7 @@ namespace stingray
 			if (_units.size() == 1)
 			{
 				T result(_units.at(0));
-				if ((BlockType)result == _units.at(0))
+				if (result >= 0 && (BlockType)result == _units.at(0))
 					return result;
 			}
 			STINGRAYKIT_THROW(NotImplementedException());
-- 
2.43.0


From 6eb1e39d89c3ee0f1b6642d370873738576ecc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:17 +0000
Subject: [PATCH 059/120] fix: printing a big integer in base one divided by
 zero

---
 stingraykit/BigNum.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stingraykit/BigNum.cpp b/stingraykit/BigNum.cpp
index acfac91..8d9edab 100644
--- a/stingraykit/BigNum.cpp
+++ b/stingraykit/BigNum.cpp
@@ -93,6 +93,8 @@ namespace stingray
 
 	ByteArray BigUnsignedInteger::Dump(size_t base_) const
 	{
+		STINGRAYKIT_CHECK(base_ > 1, ArgumentException("base", base_));
+
 		size_t maxBitLength = _units.size() * sizeof(BlockType) * 8;
 		size_t minBitsPerDigit = BitLength(base_) - 1;
 		size_t maxDigetsLength = CeilingDiv(maxBitLength, minBitsPerDigit);
-- 
2.43.0


From 1b72b862ce5deb5a717819fdea8444e2dc83ca1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:17 +0000
Subject: [PATCH 060/120] fix: decimals above 2^53 were compared, added,
 multiplied and read through a double

---
 stingraykit/Decimal.cpp | 42 ++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/stingraykit/Decimal.cpp b/stingraykit/Decimal.cpp
index 65087ae..a17b2ad 100644
--- a/stingraykit/Decimal.cpp
+++ b/stingraykit/Decimal.cpp
@@ -9,8 +9,6 @@
 
 #include <stingraykit/string/StringUtils.h>
 
-#include <cmath>
-
 namespace stingray
 {
 
@@ -34,8 +32,33 @@ namespace stingray
 			return source;
 		}
 
+		bool TryPowToExponent(s64 mantissa, u16 exponentDiff, s64& result)
+		{
+			for (result = mantissa; result != 0 && exponentDiff != 0; --exponentDiff)
+				if (__builtin_mul_overflow(result, (s64)BaseOfExponent, &result))
+					return false;
+			return true;
+		}
+
 		s64 PowToExponent(const Decimal& decimal, u16 exponent)
-		{ return decimal.GetMantissa() * std::pow(BaseOfExponent, exponent - decimal.GetExponent()); }
+		{
+			s64 result = 0;
+			STINGRAYKIT_CHECK(TryPowToExponent(decimal.GetMantissa(), exponent - decimal.GetExponent(), result),
+					IndexOutOfRangeException(decimal.GetMantissa(), std::numeric_limits<s64>::max()));
+			return result;
+		}
+
+		int Compare(const Decimal& left, const Decimal& right)
+		{
+			if (left.GetExponent() > right.GetExponent())
+				return -Compare(right, left);
+
+			s64 leftMantissa = 0;
+			if (!TryPowToExponent(left.GetMantissa(), right.GetExponent() - left.GetExponent(), leftMantissa))
+				return left.GetMantissa() < 0 ? -1 : 1;
+
+			return leftMantissa < right.GetMantissa() ? -1 : leftMantissa > right.GetMantissa() ? 1 : 0;
+		}
 
 	}
 
@@ -61,7 +84,7 @@ namespace stingray
 		const s64 fractionalPart = croppedFractionalPart.empty() ? 0 : stingray::FromString<s64>(croppedFractionalPart);
 
 		const u16 exponent = (u16)croppedFractionalPart.size();
-		const s64 integralMantissa = integralPart * std::pow(BaseOfExponent, exponent);
+		const s64 integralMantissa = PowToExponent(Decimal(integralPart), exponent);
 		const s64 fractionalMantissa = integralPart >= 0 ? fractionalPart : -fractionalPart;
 		const int signFactor = !rawIntegralPart.empty() && rawIntegralPart[0] == '-' && integralPart == 0 ? -1 : 1;
 
@@ -93,15 +116,13 @@ namespace stingray
 
 	bool Decimal::operator == (const Decimal& other) const
 	{
-		const u16 maxExponent = std::max(_exponent, other._exponent);
-		return PowToExponent(*this, maxExponent) == PowToExponent(other, maxExponent);
+		return Compare(*this, other) == 0;
 	}
 
 
 	bool Decimal::operator < (const Decimal& other) const
 	{
-		const u16 maxExponent = std::max(_exponent, other._exponent);
-		return PowToExponent(*this, maxExponent) < PowToExponent(other, maxExponent);
+		return Compare(*this, other) < 0;
 	}
 
 
@@ -116,9 +137,8 @@ namespace stingray
 
 	Decimal& Decimal::operator *= (const Decimal& other)
 	{
-		const u16 maxExponent = std::max(_exponent, other._exponent);
-		_mantissa = PowToExponent(*this, maxExponent) * PowToExponent(other, maxExponent);
-		_exponent = maxExponent + maxExponent;
+		_mantissa *= other._mantissa;
+		_exponent += other._exponent;
 		return *this;
 	}
 
-- 
2.43.0


From 69146d8cf6af85a1c1d557fe0ab1a19895e12b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:17 +0000
Subject: [PATCH 061/120] fix: decimals between -1 and 0 were printed with the
 sign in the middle

---
 stingraykit/Decimal.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stingraykit/Decimal.cpp b/stingraykit/Decimal.cpp
index a17b2ad..25dfabc 100644
--- a/stingraykit/Decimal.cpp
+++ b/stingraykit/Decimal.cpp
@@ -27,8 +27,9 @@ namespace stingray
 
 		std::string AddSignificantZeros(const std::string& source, u16 exponent)
 		{
-			if (source.size() < exponent)
-				return std::string(exponent - source.size(), '0') + source;
+			const size_t signSize = !source.empty() && source[0] == '-' ? 1 : 0;
+			if (source.size() - signSize < exponent)
+				return source.substr(0, signSize) + std::string(exponent - (source.size() - signSize), '0') + source.substr(signSize);
 			return source;
 		}
 
-- 
2.43.0


From 5f2cb6ce05e1d3ebde9a0325c2618692cb9dc492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:17 +0000
Subject: [PATCH 062/120] fix: Decimal accepted a sign after the decimal point

---
 stingraykit/Decimal.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stingraykit/Decimal.cpp b/stingraykit/Decimal.cpp
index 25dfabc..23f6176 100644
--- a/stingraykit/Decimal.cpp
+++ b/stingraykit/Decimal.cpp
@@ -82,6 +82,7 @@ namespace stingray
 		const s64 integralPart = rawIntegralPart.empty() ? 0 : stingray::FromString<s64>(rawIntegralPart);
 
 		const string_view croppedFractionalPart = RemoveUnsignificantZeros(rawFractionalPart);
+		STINGRAYKIT_CHECK(std::all_of(croppedFractionalPart.begin(), croppedFractionalPart.end(), [](char c) { return c >= '0' && c <= '9'; }), ArgumentException("str", str));
 		const s64 fractionalPart = croppedFractionalPart.empty() ? 0 : stingray::FromString<s64>(croppedFractionalPart);
 
 		const u16 exponent = (u16)croppedFractionalPart.size();
-- 
2.43.0


From 075ae80c181148fc264eca6c37a267f6c9428c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:17 +0000
Subject: [PATCH 063/120] fix: dividing a fixed-point number by zero crashed,
 and negative ones were shifted left

---
 stingraykit/fixed_point.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stingraykit/fixed_point.h b/stingraykit/fixed_point.h
index 9076e94..33b017b 100644
--- a/stingraykit/fixed_point.h
+++ b/stingraykit/fixed_point.h
@@ -28,7 +28,7 @@ namespace stingray
 		fixed_point(value_type value, bool dummy) : _value(value) { } //raw ctor
 
 	public:
-		inline fixed_point(value_type value = 0) : _value(value << N) {}
+		inline fixed_point(value_type value = 0) : _value(value * ((value_type)1 << N)) {}
 
 		template<int OtherN, typename OtherVT>
 		inline fixed_point(fixed_point<OtherN, OtherVT> o)	{ assign(o); }
@@ -57,7 +57,7 @@ namespace stingray
 		inline fixed_point& operator+= (fixed_point o)					{ _value += o._value; return *this; }
 		inline fixed_point& operator-= (fixed_point o)					{ _value -= o._value; return *this; }
 		inline fixed_point& operator*= (fixed_point o)					{ _value = ((DoubleType)_value * o._value) >> N; return *this; }
-		inline fixed_point& operator/= (fixed_point o)					{ _value = ((DoubleType)_value << N) / o._value; return *this; }
+		inline fixed_point& operator/= (fixed_point o)					{ STINGRAYKIT_CHECK(o._value != 0, InvalidOperationException()); _value = (DoubleType)_value * ((DoubleType)1 << N) / o._value; return *this; }
 
 
 		template<typename T>
@@ -66,9 +66,9 @@ namespace stingray
 
 		template<typename T>
 		inline typename EnableIf<IsInt<T>::Value, fixed_point&>::ValueT operator/= (T value)
-		{ _value /= value; return *this; }
+		{ STINGRAYKIT_CHECK(value != 0, InvalidOperationException()); _value /= value; return *this; }
 
-		inline fixed_point& operator<<=(int shift)			{ _value <<= shift; return *this; }
+		inline fixed_point& operator<<=(int shift)			{ _value *= (value_type)1 << shift; return *this; }
 		inline fixed_point& operator>>=(int shift)			{ _value >>= shift; return *this; }
 
 		bool operator< (fixed_point o) const	{ return _value < o._value; }
@@ -89,7 +89,7 @@ namespace stingray
 			if (N <= OtherN)
 				_value = (BiggestType)other.GetValue() >> (OtherN - N);
 			else
-				_value = (BiggestType)other.GetValue() << (N - OtherN);
+				_value = (BiggestType)other.GetValue() * ((BiggestType)1 << (N - OtherN));
 		}
 
 		static fixed_point sqrt(value_type value)
-- 
2.43.0


From 8193e7825c854530b599f164a889d8625d11d273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:17 +0000
Subject: [PATCH 064/120] fix: fixed-point numbers were printed without leading
 zeros of the fraction, read and printed wrong when negative, and overflowed
 on long fractions

---
 stingraykit/fixed_point.h | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/stingraykit/fixed_point.h b/stingraykit/fixed_point.h
index 33b017b..a83af0b 100644
--- a/stingraykit/fixed_point.h
+++ b/stingraykit/fixed_point.h
@@ -111,8 +111,9 @@ namespace stingray
 
 		std::string ToString() const
 		{
-			value_type res = (*this * 1000).to_int();
-			return StringBuilder() % (res / 1000) % "." % (res % 1000);
+			const DoubleType scaled = (DoubleType)_value * 1000;
+			const DoubleType res = (scaled < 0 ? -scaled : scaled) >> N;
+			return StringBuilder() % (scaled < 0 ? "-" : "") % (res / 1000) % "." % RightJustify(stingray::ToString(res % 1000), 3, '0');
 		}
 
 		static fixed_point FromRawValue(value_type value)
@@ -128,11 +129,18 @@ namespace stingray
 				return stingray::FromString<value_type>(v[0]);
 			case 2:
 			{
-				fixed_point integral_part = stingray::FromString<value_type>(v[0]);
-				fixed_point fractional_part = stingray::FromString<value_type>(v[1]);
-				for (size_t i = 0; i < v[1].size(); ++i)
-					fractional_part /= 10;
-				return integral_part + fractional_part;
+				const fixed_point integral_part = stingray::FromString<value_type>(v[0]);
+				STINGRAYKIT_CHECK(!v[1].empty(), ArgumentException("str", str));
+
+				DoubleType fractional_part = 0;
+				for (std::string::const_reverse_iterator it = v[1].rbegin(); it != v[1].rend(); ++it)
+				{
+					STINGRAYKIT_CHECK(*it >= '0' && *it <= '9', ArgumentException("str", str));
+					fractional_part = (fractional_part + (DoubleType)(*it - '0') * ((DoubleType)1 << N)) / 10;
+				}
+
+				const fixed_point fraction((value_type)fractional_part, false);
+				return v[0][0] == '-' ? integral_part - fraction : integral_part + fraction;
 			}
 			default:
 				STINGRAYKIT_THROW(ArgumentException("str", str));
-- 
2.43.0


From 1d39701e04de4377cfb6b20ac1d243b22d927198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:17 +0000
Subject: [PATCH 065/120] fix: fixed_point::sqrt was right for small values
 only

---
 stingraykit/fixed_point.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stingraykit/fixed_point.h b/stingraykit/fixed_point.h
index a83af0b..f4751d5 100644
--- a/stingraykit/fixed_point.h
+++ b/stingraykit/fixed_point.h
@@ -95,11 +95,12 @@ namespace stingray
 		static fixed_point sqrt(value_type value)
 		{
 			fixed_point ret(0);
-			DoubleType ret_sq = -((DoubleType)value << (N * 2)) - 1;
-			for (int s = 30; s >= 0; s -= 2)
+			typedef typename IntType<sizeof(value_type) * 16, true>::ValueT SignedDoubleType;
+			SignedDoubleType ret_sq = -((SignedDoubleType)value << (N * 2)) - 1;
+			for (int s = sizeof(SignedDoubleType) * 8 - 2; s >= 0; s -= 2)
 			{
 				ret._value += ret._value;
-				DoubleType b = ret_sq + ((2 * ret._value + 1) << s);
+				SignedDoubleType b = ret_sq + ((2 * (SignedDoubleType)ret._value + 1) << s);
 				if (b < 0)
 				{
 					ret_sq = b;
-- 
2.43.0


From 66e417040ca3288d16c931db7a0ee3256697d6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:17 +0000
Subject: [PATCH 066/120] fix: Lcm of two zeros divided by zero

---
 stingraykit/math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/math.h b/stingraykit/math.h
index cc270ce..60ccac5 100644
--- a/stingraykit/math.h
+++ b/stingraykit/math.h
@@ -34,7 +34,7 @@ namespace stingray
 
 
 	constexpr size_t Gcd(size_t a, size_t b) { return b ? Gcd(b, a % b) : a; }
-	constexpr size_t Lcm(size_t a, size_t b) { return a / Gcd(a, b) * b; }
+	constexpr size_t Lcm(size_t a, size_t b) { return a == 0 || b == 0 ? 0 : a / Gcd(a, b) * b; }
 
 
 	template < typename T > constexpr T Max(T a, T b) { return std::max<T>(a, b); }
-- 
2.43.0


From 6fa7fa612c500402e932c9f09efd9436ee46531f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:17 +0000
Subject: [PATCH 067/120] fix: AlignUp overflowed near the maximum, AlignUp and
 AlignDown rounded negative values wrong

---
 stingraykit/math.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/math.h b/stingraykit/math.h
index 60ccac5..4463d7e 100644
--- a/stingraykit/math.h
+++ b/stingraykit/math.h
@@ -22,14 +22,14 @@ namespace stingray
 	template < typename T > constexpr T AlignUp(T value, T boundary)
 	{
 		STINGRAYKIT_CHECK(boundary != 0, ArgumentException("boundary"));
-		return boundary * ((value + boundary - 1) / boundary);
+		return boundary * (value / boundary + (value % boundary > 0 ? 1 : 0));
 	}
 
 
 	template < typename T > constexpr T AlignDown(T value, T boundary)
 	{
 		STINGRAYKIT_CHECK(boundary != 0, ArgumentException("boundary"));
-		return boundary * (value / boundary);
+		return boundary * (value / boundary - (value % boundary < 0 ? 1 : 0));
 	}
 
 
-- 
2.43.0


From bc3bbe8a4bf53fdc09c1d322f8a82dfbbee2fd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:17 +0000
Subject: [PATCH 068/120] fix: rounding a decimal fraction with many leading
 zeros reported an overflow

---
 stingraykit/math.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stingraykit/math.cpp b/stingraykit/math.cpp
index 0bb52a7..03a142a 100644
--- a/stingraykit/math.cpp
+++ b/stingraykit/math.cpp
@@ -33,7 +33,11 @@ namespace stingray
 
 			u64 precisionBase = 1;
 			for (unsigned index = 0; index < precision; ++index)
+			{
+				if (precisionBase > fraction / radix) // fraction < precisionBase * radix
+					return { fraction, precision, false };
 				precisionBase *= radix;
+			}
 
 			const bool isOverflow = fraction >= precisionBase;
 			if (isOverflow)
-- 
2.43.0


From ae88b0fba367ae75a3352224955efd86401d1762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:17 +0000
Subject: [PATCH 069/120] fix: ParseDecimalFraction counted a sign as a digit
 of the fraction

---
 stingraykit/math.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stingraykit/math.cpp b/stingraykit/math.cpp
index 03a142a..0df735f 100644
--- a/stingraykit/math.cpp
+++ b/stingraykit/math.cpp
@@ -75,6 +75,8 @@ namespace stingray
 		constexpr unsigned Radix = 10;
 		constexpr u64 MaxMultiplicand = std::numeric_limits<u64>::max() / Radix;
 
+		STINGRAYKIT_CHECK(std::all_of(fractionStr.begin(), fractionStr.end(), [](char c) { return c >= '0' && c <= '9'; }), ArgumentException("fractionStr", fractionStr));
+
 		u64 fraction = FromString<u64>(fractionStr);
 		if (fraction == 0)
 			return { 0, 0, false };
-- 
2.43.0


From 150a5386b29749139ea543c64995a584afd54c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:59 +0000
Subject: [PATCH 070/120] fix: the arithmetic coder dropped pending underflow
 bits and significant low bits at the end of data

---
 stingraykit/compression/ArithmeticCoder.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/stingraykit/compression/ArithmeticCoder.h b/stingraykit/compression/ArithmeticCoder.h
index fa192f0..ca2eecc 100644
--- a/stingraykit/compression/ArithmeticCoder.h
+++ b/stingraykit/compression/ArithmeticCoder.h
@@ -57,12 +57,11 @@ namespace stingray
 		template <typename BitsConsumer_>
 		void EndOfData(const BitsConsumer_& consumer)
 		{
-			while (_low != _high)
-			{
-				consumer(FirstBit(_low));
-				_low = (_low << 1) & 0x7FFFFFFF;
-				_high = (_high << 1) & 0x7FFFFFFF;
-			}
+			// whatever bits follow these ones, the value stays between _low and _high
+			consumer(SecondBit(_low));
+			for (u32 i = 0; i <= _underflowBits; ++i)
+				consumer(!SecondBit(_low));
+			_underflowBits = 0;
 		}
 
 	private:
-- 
2.43.0


From c6ca44adcaf7efab8fb6a797ea9120bf38ef33fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:59 +0000
Subject: [PATCH 071/120] fix: PPM compressor summed up probabilities in their
 own narrow type

---
 stingraykit/compression/ppm/PpmModel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/compression/ppm/PpmModel.h b/stingraykit/compression/ppm/PpmModel.h
index 96fcada..1777867 100644
--- a/stingraykit/compression/ppm/PpmModel.h
+++ b/stingraykit/compression/ppm/PpmModel.h
@@ -476,7 +476,7 @@ namespace stingray
 					f(scale - exit, scale, scale);
 					return false;
 				}
-				SymbolCount low = Sum(Transform(ToRange(first, it), Bind(&SymbolProbability::GetProbability, _1)));
+				SymbolCount low = Sum(Transform(Transform(ToRange(first, it), Bind(&SymbolProbability::GetProbability, _1)), ImplicitCaster<SymbolCount>()));
 				f(low, low + it->GetProbability(), scale);
 				return true;
 			}
-- 
2.43.0


From 962a9e4a9de1a87f1052089dc59baf6d730f3201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:59 +0000
Subject: [PATCH 072/120] fix: PPM compressor never finished a message that
 ended in the last byte of its buffer

---
 stingraykit/compression/ppm/PpmCompressor.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stingraykit/compression/ppm/PpmCompressor.h b/stingraykit/compression/ppm/PpmCompressor.h
index 3116f3c..70fd0b3 100644
--- a/stingraykit/compression/ppm/PpmCompressor.h
+++ b/stingraykit/compression/ppm/PpmCompressor.h
@@ -62,6 +62,12 @@ namespace stingray
 		bool EndOfData(const DataConsumer_& consumer)
 		{
 			_writeOffset = BytesToBits(BitsToBytes(_writeOffset + 7));
+			if (_writeOffset == BufferSizeBits)
+			{
+				_writeOffset = 0;
+				_dataIsContiguous = !_dataIsContiguous;
+			}
+
 			while (GetDataSizeBits() != 0)
 				if (!DoConsume(consumer))
 					return false;
-- 
2.43.0


From a4f0960923f3dbdcc18bcb10a4c8ab3a6539b98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:59 +0000
Subject: [PATCH 073/120] fix: PPM compressor encoded the end of data again
 after the consumer refused a part of the message

---
 stingraykit/compression/ppm/PpmCompressor.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/stingraykit/compression/ppm/PpmCompressor.h b/stingraykit/compression/ppm/PpmCompressor.h
index 70fd0b3..c54d7fe 100644
--- a/stingraykit/compression/ppm/PpmCompressor.h
+++ b/stingraykit/compression/ppm/PpmCompressor.h
@@ -113,9 +113,10 @@ namespace stingray
 		std::deque<typename Impl::Symbol> _context;
 		BitsToBytesBuffer<BufferSize>     _bitBuffer;
 		ArithmeticCoder                   _coder;
+		bool                              _endOfDataEncoded;
 
 	public:
-		PpmCompressor(const shared_ptr<const Model>& model, const IDataSourcePtr& source) : _model(model), _source(source)
+		PpmCompressor(const shared_ptr<const Model>& model, const IDataSourcePtr& source) : _model(model), _source(source), _endOfDataEncoded(false)
 		{ }
 
 		virtual void Read(IDataConsumer& consumer, const ICancellationToken& token)
@@ -133,12 +134,17 @@ namespace stingray
 
 		void DoEndOfData(IDataConsumer& consumer, const ICancellationToken& token)
 		{
-			if (!ConsumeData(consumer, token))
-				return;
+			if (!_endOfDataEncoded)
+			{
+				if (!ConsumeData(consumer, token))
+					return;
 
-			_model->Predict(_context, null, Bind(&PpmCompressor::DoEncode, this, _1, _2, _3));
+				_model->Predict(_context, null, Bind(&PpmCompressor::DoEncode, this, _1, _2, _3));
+
+				_coder.EndOfData(Bind(&PpmCompressor::AddBit, this, _1));
+				_endOfDataEncoded = true;
+			}
 
-			_coder.EndOfData(Bind(&PpmCompressor::AddBit, this, _1));
 			if (!_bitBuffer.EndOfData(Bind(&IDataConsumer::Process, &consumer, _1, wrap_const_ref(token))))
 				return;
 			consumer.EndOfData(token);
-- 
2.43.0


From 7c0edfaa75a00c966324b536ecc8f1bd2fcecb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:59 +0000
Subject: [PATCH 074/120] fix: PPM decompressor read its buffer again and
 again, uninitialised at first, when compressed data was truncated

---
 stingraykit/compression/ppm/PpmDecompressor.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/stingraykit/compression/ppm/PpmDecompressor.h b/stingraykit/compression/ppm/PpmDecompressor.h
index d4c1b68..b139fb5 100644
--- a/stingraykit/compression/ppm/PpmDecompressor.h
+++ b/stingraykit/compression/ppm/PpmDecompressor.h
@@ -94,12 +94,13 @@ namespace stingray
 		BytesToBitsBuffer<BufferSize>     _bitBuffer;
 		optional<ArithmeticDecoder>       _decoder;
 		bool                              _endOfData;
+		size_t                            _paddingBits;
 
 		// TODO: add proper output buffer
 		optional<u8>                      _outputBuffer;
 
 	public:
-		PpmDecompressor(const shared_ptr<const Model>& model, const IDataSourcePtr& source) : _model(model), _source(source), _endOfData(false)
+		PpmDecompressor(const shared_ptr<const Model>& model, const IDataSourcePtr& source) : _model(model), _source(source), _endOfData(false), _paddingBits(0)
 		{ }
 
 		virtual void Read(IDataConsumer& consumer, const ICancellationToken& token)
@@ -180,7 +181,15 @@ namespace stingray
 		}
 
 		bool GetBit()
-		{ return _bitBuffer.GetBit(); }
+		{
+			if (_bitBuffer.GetDataSizeBits() != 0)
+				return _bitBuffer.GetBit();
+
+			// the decoder looks ahead of the end of data for a few bits only
+			STINGRAYKIT_CHECK(_paddingBits < MaxBitsPerSymbol + 32, MalformedDataException("Unexpected end of compressed data"));
+			++_paddingBits;
+			return false;
+		}
 	};
 
 }
-- 
2.43.0


From 0aadbdc5a5b8b877ccd57edb6a69d0e39b426423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:59 +0000
Subject: [PATCH 075/120] fix: PPM decompressor stopped consuming data after
 the end of the message

---
 stingraykit/compression/ppm/PpmDecompressor.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stingraykit/compression/ppm/PpmDecompressor.h b/stingraykit/compression/ppm/PpmDecompressor.h
index b139fb5..4fb17f4 100644
--- a/stingraykit/compression/ppm/PpmDecompressor.h
+++ b/stingraykit/compression/ppm/PpmDecompressor.h
@@ -109,6 +109,9 @@ namespace stingray
 	private:
 		size_t DoProcess(IDataConsumer& consumer, ConstByteData data, const ICancellationToken& token)
 		{
+			if (_endOfData)
+				return data.size();
+
 			size_t consumed = ProcessInput(data);
 			while (_bitBuffer.GetDataSizeBits() >= MaxBitsPerSymbol && !_endOfData)
 			{
-- 
2.43.0


From 8aa8909b2205d8de3b9b00cfdfef2386d66ae884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:59 +0000
Subject: [PATCH 076/120] fix: nothing could be compressed with a PPM
 dictionary trained with no data

---
 stingraykit/compression/ppm/PpmModel.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/stingraykit/compression/ppm/PpmModel.h b/stingraykit/compression/ppm/PpmModel.h
index 1777867..8f39ef4 100644
--- a/stingraykit/compression/ppm/PpmModel.h
+++ b/stingraykit/compression/ppm/PpmModel.h
@@ -365,12 +365,18 @@ namespace stingray
 		public:
 			Model(ModelBuilder<ModelConfigList_>& modelBuilder) : _childModel(modelBuilder.GetChildModel())
 			{
+				if (ContextSize == 0)
+					modelBuilder.AddContext(Context());
+
 				for (typename Builder::ContextBuilders::iterator it = modelBuilder.GetContexts().begin(); it != modelBuilder.GetContexts().end(); ++it)
 				{
 					size_t oldOffset = _symbols.size();
 
 					ContextInfoBuilder& contextBuilder(it->second);
-					SymbolCount maxCount = std::max(*Range::MaxElement(Transform(ToRange(contextBuilder.GetSymbols()), Bind(&SymbolCounter::GetCount, _1))), contextBuilder.GetExit());
+					SymbolCount maxCount = contextBuilder.GetExit();
+					for (typename ContextInfoBuilder::Symbols::const_iterator s = contextBuilder.GetSymbols().begin(); s != contextBuilder.GetSymbols().end(); ++s)
+						maxCount = std::max(maxCount, s->GetCount());
+
 					if (ContextSize != 0)
 					{
 						for (typename ContextInfoBuilder::Symbols::const_iterator s = contextBuilder.GetSymbols().begin(); s != contextBuilder.GetSymbols().end(); ++s)
-- 
2.43.0


From 2f997caee7d7034f8e58d08b4cdf3f9b043a9fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:44 +0000
Subject: [PATCH 077/120] fix: UTF-16 surrogate pairs were decoded without the
 offset of the supplementary planes, and an unpaired one swallowed the next
 character

---
 stingraykit/locale/StringCodec.cpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/stingraykit/locale/StringCodec.cpp b/stingraykit/locale/StringCodec.cpp
index 08a3324..2beda0e 100644
--- a/stingraykit/locale/StringCodec.cpp
+++ b/stingraykit/locale/StringCodec.cpp
@@ -291,18 +291,17 @@ namespace stingray
 			if (c0 < 0xd8 || c0 > 0xdf)
 				return (c0 << 8) | c1;
 
-			if (c0 > 0xdb || it == end)
+			if (c0 > 0xdb || std::distance(it, end) < 2)
 				return InvalidCharacter;
 
-			unsigned char c2 = (unsigned char)*it++;
-			if (it == end)
+			unsigned char c2 = (unsigned char)*it;
+			if (c2 < 0xdc || c2 > 0xdf)
 				return InvalidCharacter;
 
+			++it;
 			unsigned char c3 = (unsigned char)*it++;
-			if (c2 < 0xdc || c2 > 0xdf)
-				return InvalidCharacter;
 
-			return ((c0 & 0x03) << 18) | (c1 << 10) | ((c2 & 0x03) << 8) | c3;
+			return 0x10000 + (((c0 & 0x03) << 18) | (c1 << 10) | ((c2 & 0x03) << 8) | c3);
 		}
 
 		u32 Unpack_ISO_10646_utf16le(string_view::const_iterator& it, const string_view::const_iterator& end)
@@ -315,18 +314,17 @@ namespace stingray
 			if (c1 < 0xd8 || c1 > 0xdf)
 				return (c1 << 8) | c0;
 
-			if (c1 > 0xdb || it == end)
-				return InvalidCharacter;
-
-			unsigned char c2 = (unsigned char)*it++;
-			if (it == end)
+			if (c1 > 0xdb || std::distance(it, end) < 2)
 				return InvalidCharacter;
 
-			unsigned char c3 = (unsigned char)*it++;
+			unsigned char c3 = (unsigned char)*std::next(it);
 			if (c3 < 0xdc || c3 > 0xdf)
 				return InvalidCharacter;
 
-			return ((c1 & 0x03) << 18) | (c0 << 10) | ((c3 & 0x03) << 8) | c2;
+			unsigned char c2 = (unsigned char)*it++;
+			++it;
+
+			return 0x10000 + (((c1 & 0x03) << 18) | (c0 << 10) | ((c3 & 0x03) << 8) | c2);
 		}
 
 		u32 Unpack_ISO_10646_utf32be(string_view::const_iterator& it, const string_view::const_iterator& end)
-- 
2.43.0


From 39751ffb1aa32c6cdc1d0bd3b6f77f4240c35fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:44 +0000
Subject: [PATCH 078/120] fix: malformed UTF-8 was decoded into characters,
 swallowing the ones after it

---
 stingraykit/locale/StringCodec.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/stingraykit/locale/StringCodec.cpp b/stingraykit/locale/StringCodec.cpp
index 2beda0e..a715da9 100644
--- a/stingraykit/locale/StringCodec.cpp
+++ b/stingraykit/locale/StringCodec.cpp
@@ -251,34 +251,39 @@ namespace stingray
 			return c < 0xa0 ? c : table_a0[c - 0xa0];
 		}
 
+		bool IsUtf8Continuation(char c)
+		{ return ((unsigned char)c & 0xc0) == 0x80; }
+
+
 		u32 Unpack_ISO_10646_utf8(string_view::const_iterator& it, const string_view::const_iterator& end)
 		{
 			unsigned char c0 = (unsigned char)*it++;
 			if (c0 <= 0x7f)
 				return c0;
 
-			if (c0 == 0xc0 || c0 == 0xc1 || c0 >= 0xf5 || it == end)
+			if (c0 < 0xc2 || c0 >= 0xf5 || it == end || !IsUtf8Continuation(*it))
+				return InvalidCharacter;
+
+			const unsigned char next = (unsigned char)*it;
+			if ((c0 == 0xe0 && next < 0xa0) || (c0 == 0xed && next > 0x9f) || (c0 == 0xf0 && next < 0x90) || (c0 == 0xf4 && next > 0x8f)) // overlong forms, surrogates and values above 0x10ffff
 				return InvalidCharacter;
 
 			unsigned char c1 = (unsigned char)*it++;
 			if (c0 >= 0xc2 && c0 <= 0xdf)
 				return ((c0 & 0x1f) << 6) | (c1 & 0x3f);
 
-			if (it == end)
+			if (it == end || !IsUtf8Continuation(*it))
 				return InvalidCharacter;
 
 			unsigned char c2 = (unsigned char)*it++;
 			if (c0 >= 0xe0 && c0 <= 0xef)
 				return ((c0 & 0x0f) << 12) | ((c1 & 0x3f) << 6) | (c2 & 0x3f);
 
-			if (it == end)
+			if (it == end || !IsUtf8Continuation(*it))
 				return InvalidCharacter;
 
 			unsigned char c3 = (unsigned char)*it++;
-			if (c0 >= 0xf0 && c0 <= 0xf4)
-				return ((c0 & 0x07) << 18) | ((c1 & 0x3f) << 12) | ((c2 & 0x3f) << 6) | (c3 & 0x3f);
-
-			return InvalidCharacter;
+			return ((c0 & 0x07) << 18) | ((c1 & 0x3f) << 12) | ((c2 & 0x3f) << 6) | (c3 & 0x3f);
 		}
 
 		u32 Unpack_ISO_10646_utf16be(string_view::const_iterator& it, const string_view::const_iterator& end)
-- 
2.43.0


From 10ecb1cb185b197295e31626e846a4545d68ae50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:44 +0000
Subject: [PATCH 079/120] fix: surrogates were encoded in UTF-8, as was the low
 byte of a replacement outside ASCII

---
 stingraykit/locale/StringCodec.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/stingraykit/locale/StringCodec.cpp b/stingraykit/locale/StringCodec.cpp
index a715da9..9f400d5 100644
--- a/stingraykit/locale/StringCodec.cpp
+++ b/stingraykit/locale/StringCodec.cpp
@@ -342,7 +342,7 @@ namespace stingray
 				ucs <<= 8;
 				ucs |= (u8)*it++;
 			}
-			return ucs < 0x110000 ? ucs : InvalidCharacter;
+			return ucs < 0x110000 && (ucs < 0xd800 || ucs > 0xdfff) ? ucs : InvalidCharacter;
 		}
 
 		u32 Unpack_ISO_10646_utf32le(string_view::const_iterator& it, const string_view::const_iterator& end)
@@ -354,7 +354,7 @@ namespace stingray
 					return InvalidCharacter;
 				ucs |= ((u8)*it++ << (n * 8));
 			}
-			return ucs < 0x110000 ? ucs : InvalidCharacter;
+			return ucs < 0x110000 && (ucs < 0xd800 || ucs > 0xdfff) ? ucs : InvalidCharacter;
 		}
 
 		u32 Unpack_CP866(string_view::const_iterator& it, const string_view::const_iterator& end)
@@ -548,21 +548,23 @@ namespace stingray
 			dst += (char) ((ucs >> 6) | 0xc0);
 			dst += (char) ((ucs & 0x3f) | 0x80);
 		}
-		else if (ucs < 0x10000)
+		else if (ucs < 0x10000 && (ucs < 0xd800 || ucs > 0xdfff))
 		{
 			dst += (char)((ucs >> 12) | 0xe0);
 			dst += (char)(((ucs & 0x0fc0) >> 6) | 0x80);
 			dst += (char)((ucs & 0x003f) | 0x80);
 		}
-		else if (ucs < 0x110000) //actually 0x200000, but unicode still not reached this limit.
+		else if (ucs >= 0x10000 && ucs < 0x110000) //actually 0x200000, but unicode still not reached this limit.
 		{
 			dst += (char)((ucs >> 18) | 0xf0);
 			dst += (char)(((ucs & 0x03f000) >> 12) | 0x80);
 			dst += (char)(((ucs & 0x000fc0) >> 6) | 0x80);
 			dst += (char)( (ucs & 0x00003f) | 0x80);
 		}
+		else if (ucs != invalidCharReplacement)
+			PackUtf8(dst, invalidCharReplacement, invalidCharReplacement);
 		else
-			dst += invalidCharReplacement;
+			dst += '?';
 	}
 
 
-- 
2.43.0


From 63dd6a89a76502dd91f97ff0df88c0eb5e26b45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:44 +0000
Subject: [PATCH 080/120] fix: bytes with no character in ISO 8859-11 were
 decoded into unassigned ones

---
 stingraykit/locale/StringCodec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/locale/StringCodec.cpp b/stingraykit/locale/StringCodec.cpp
index 9f400d5..06326ac 100644
--- a/stingraykit/locale/StringCodec.cpp
+++ b/stingraykit/locale/StringCodec.cpp
@@ -190,7 +190,7 @@ namespace stingray
 			u8 c = (u8)*it++;
 			if (c <= 0xa0)
 				return c;
-			if (c == 0xdb || c == 0xdc || c == 0xde)
+			if ((c >= 0xdb && c <= 0xde) || c >= 0xfc)
 				return InvalidCharacter;
 			return 0x0d60 + c;
 		}
-- 
2.43.0


From 90b2c4a9cb4d77c69ea78812d5b0517dc0bf16b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:44 +0000
Subject: [PATCH 081/120] fix: the byte with no character in CP1251 was decoded
 into a null character

---
 stingraykit/locale/StringCodec.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stingraykit/locale/StringCodec.cpp b/stingraykit/locale/StringCodec.cpp
index 06326ac..1d47ab3 100644
--- a/stingraykit/locale/StringCodec.cpp
+++ b/stingraykit/locale/StringCodec.cpp
@@ -32,7 +32,10 @@ namespace stingray
 				0x0430, 0x0431, 0x0432, 0x0433, 0x0434, 0x0435, 0x0436, 0x0437, 0x0438, 0x0439, 0x043A, 0x043B, 0x043C, 0x043D, 0x043E, 0x043F,
 				0x0440, 0x0441, 0x0442, 0x0443, 0x0444, 0x0445, 0x0446, 0x0447, 0x0448, 0x0449, 0x044A, 0x044B, 0x044C, 0x044D, 0x044E, 0x044F
 			};
-			return c < 0x80 ? c : table_80[c - 0x80];
+			if (c < 0x80)
+				return c;
+			u16 r = table_80[c - 0x80];
+			return r != 0x0000 ? r : InvalidCharacter;
 		}
 
 		u32 Unpack_ISO_8859_1(string_view::const_iterator& it, const string_view::const_iterator& end)
-- 
2.43.0


From caf5881c92152e7ceb288e08ba0acfaa4a232966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:44 +0000
Subject: [PATCH 082/120] fix: conversion to code page 1251 replaced all its
 characters but ASCII ones

---
 stingraykit/locale/StringCodec.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/stingraykit/locale/StringCodec.cpp b/stingraykit/locale/StringCodec.cpp
index 1d47ab3..813aaa3 100644
--- a/stingraykit/locale/StringCodec.cpp
+++ b/stingraykit/locale/StringCodec.cpp
@@ -425,6 +425,25 @@ namespace stingray
 			}
 		}
 
+		void Pack_CP1251(std::string& str, u32 unicode, char invalidCharReplacement)
+		{
+			if (unicode != InvalidCharacter)
+			{
+				for (unsigned c = 0; c < 0x100; ++c)
+				{
+					const char chr = (char)c;
+					const string_view chrView(&chr, 1);
+					string_view::const_iterator it = chrView.begin();
+					if (Unpack_CP1251(it, chrView.end()) == unicode)
+					{
+						str += chr;
+						return;
+					}
+				}
+			}
+			str += invalidCharReplacement;
+		}
+
 		void Pack_ASCII(std::string& str, u32 unicode, char invalidCharReplacement)
 		{
 			if (unicode < 0x80)
@@ -619,6 +638,7 @@ namespace stingray
 		switch (codePage)
 		{
 		case 866:	return &Pack_CP866;
+		case 1251:	return &Pack_CP1251;
 		default:	return &Pack_ASCII;
 		}
 	}
-- 
2.43.0


From 7a9433a54d74bb03fe4427fc87fdbfe5b7a8e6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:44 +0000
Subject: [PATCH 083/120] fix: pseudo-graphics of code page 866 were lost in
 conversions

---
 stingraykit/locale/StringCodec.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/stingraykit/locale/StringCodec.cpp b/stingraykit/locale/StringCodec.cpp
index 813aaa3..b4338ec 100644
--- a/stingraykit/locale/StringCodec.cpp
+++ b/stingraykit/locale/StringCodec.cpp
@@ -9,6 +9,8 @@
 
 #include <stingraykit/string/ToString.h>
 
+#include <algorithm>
+
 namespace stingray
 {
 
@@ -360,6 +362,13 @@ namespace stingray
 			return ucs < 0x110000 && (ucs < 0xd800 || ucs > 0xdfff) ? ucs : InvalidCharacter;
 		}
 
+		const u16 CP866PseudoGraphics[] =
+		{
+			0x2591, 0x2592, 0x2593, 0x2502, 0x2524, 0x2561, 0x2562, 0x2556, 0x2555, 0x2563, 0x2551, 0x2557, 0x255d, 0x255c, 0x255b, 0x2510,
+			0x2514, 0x2534, 0x252c, 0x251c, 0x2500, 0x253c, 0x255e, 0x255f, 0x255a, 0x2554, 0x2569, 0x2566, 0x2560, 0x2550, 0x256c, 0x2567,
+			0x2568, 0x2564, 0x2565, 0x2559, 0x2558, 0x2552, 0x2553, 0x256b, 0x256a, 0x2518, 0x250c, 0x2588, 0x2584, 0x258c, 0x2590, 0x2580,
+		};
+
 		u32 Unpack_CP866(string_view::const_iterator& it, const string_view::const_iterator& end)
 		{
 			u8 c = (u8)*it++;
@@ -381,7 +390,7 @@ namespace stingray
 				return table_f0[c - 0xf0];
 			}
 			else
-				return InvalidCharacter;
+				return CP866PseudoGraphics[c - 0xb0];
 		}
 
 		u32 Unpack_ASCII(string_view::const_iterator& it, const string_view::const_iterator& end)
@@ -420,7 +429,15 @@ namespace stingray
 				case 0x25a0: str += (char)0xfe; break;
 				case 0x00a0: str += (char)0xff; break;
 
-				default: str += invalidCharReplacement;
+				default:
+					{
+						const u16* const end = CP866PseudoGraphics + sizeof(CP866PseudoGraphics) / sizeof(CP866PseudoGraphics[0]);
+						const u16* const it = std::find(CP866PseudoGraphics, end, unicode);
+						if (it != end)
+							str += (char)(0xb0 + (it - CP866PseudoGraphics));
+						else
+							str += invalidCharReplacement;
+					}
 				}
 			}
 		}
-- 
2.43.0


From 3fce63c4a19aa8e8aac6acad58066f0cb6190921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:44 +0000
Subject: [PATCH 084/120] fix: the same text in encodings of different width
 was not equal, though it compared as such

---
 stingraykit/locale/LocaleString.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/stingraykit/locale/LocaleString.cpp b/stingraykit/locale/LocaleString.cpp
index a6b7b92..81707e6 100644
--- a/stingraykit/locale/LocaleString.cpp
+++ b/stingraykit/locale/LocaleString.cpp
@@ -44,9 +44,6 @@ namespace stingray
 		if (TextEncoding == other.TextEncoding) //encoding matched
 			return Text == other.Text;
 
-		if (Text.size() != other.Text.size())
-			return false;
-
 		return Compare(other) == 0;
 	}
 
-- 
2.43.0


From 483f24cfcb721a9f0c475e4a7373eea3eea63f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:44 +0000
Subject: [PATCH 085/120] fix: overlong UTF-8 forms, surrogates and values
 above the Unicode range were taken for valid

---
 stingraykit/string/Utf8IteratorRange.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/stingraykit/string/Utf8IteratorRange.h b/stingraykit/string/Utf8IteratorRange.h
index 5076645..ca93925 100644
--- a/stingraykit/string/Utf8IteratorRange.h
+++ b/stingraykit/string/Utf8IteratorRange.h
@@ -51,7 +51,7 @@ namespace stingray
 			STINGRAYKIT_CHECK(it != _end, MalformedUtf8Exception());
 
 			const u8 c1 = (u8)*it++;
-			STINGRAYKIT_CHECK((c1 & 0xc0) == 0x80, MalformedUtf8Exception());
+			CheckSecondByte(c0, c1);
 
 			if (c0 >= 0xc2 && c0 <= 0xdf)
 				return ((u32)(c0 & 0x1f) << 6) | (c1 & 0x3f);
@@ -110,7 +110,7 @@ namespace stingray
 			STINGRAYKIT_CHECK(_it != _end, MalformedUtf8Exception());
 
 			const u8 c1 = (u8)*_it++;
-			STINGRAYKIT_CHECK((c1 & 0xc0) == 0x80, MalformedUtf8Exception());
+			CheckSecondByte(c0, c1);
 
 			if (c0 >= 0xc2 && c0 <= 0xdf)
 				return *this;
@@ -139,6 +139,7 @@ namespace stingray
 			STINGRAYKIT_CHECK(_it != _begin, "Prev() at first element");
 			--_it;
 
+			u8 c1 = 0;
 			for (size_t count = 0; count < 4; ++count, --_it)
 			{
 				const u8 c0 = (u8)*_it;
@@ -158,15 +159,30 @@ namespace stingray
 					default:		STINGRAYKIT_THROW(MalformedUtf8Exception());
 					}
 
+					if (count != 0)
+						CheckSecondByte(c0, c1);
+
 					return *this;
 				}
 
+				c1 = c0;
+
 				if (_it == _begin)
 					break;
 			}
 
 			STINGRAYKIT_THROW(MalformedUtf8Exception());
 		}
+
+	private:
+		static void CheckSecondByte(u8 c0, u8 c1)
+		{
+			STINGRAYKIT_CHECK((c1 & 0xc0) == 0x80, MalformedUtf8Exception());
+			STINGRAYKIT_CHECK(c0 != 0xe0 || c1 >= 0xa0, MalformedUtf8Exception()); // overlong
+			STINGRAYKIT_CHECK(c0 != 0xed || c1 <= 0x9f, MalformedUtf8Exception()); // surrogate
+			STINGRAYKIT_CHECK(c0 != 0xf0 || c1 >= 0x90, MalformedUtf8Exception()); // overlong
+			STINGRAYKIT_CHECK(c0 != 0xf4 || c1 <= 0x8f, MalformedUtf8Exception()); // above 0x10ffff
+		}
 	};
 
 }
-- 
2.43.0


From 496698a263a2517bfd67a89e06b863e58fc07a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:44 +0000
Subject: [PATCH 086/120] fix: transliterated search read past the end of the
 text

---
 stingraykit/locale/Translit.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/locale/Translit.cpp b/stingraykit/locale/Translit.cpp
index 46e5594..d25a7b1 100644
--- a/stingraykit/locale/Translit.cpp
+++ b/stingraykit/locale/Translit.cpp
@@ -50,10 +50,10 @@ namespace stingray
 			bool ok = true;
 			for (size_t j = 0, j2 = i; j < translitSubstr.size(); ++j, ++j2)
 			{
-				if (str[j2] == translitSubstr[j])
+				if (j2 < str.size() && str[j2] == translitSubstr[j])
 					continue;
 				size_t a = 1, b = 1;
-				if (TranslitMatchChar(&translitSubstr[j], translitSubstr.size() - j, &str[j2], str.size() - j2, a, b))
+				if (j2 < str.size() && TranslitMatchChar(&translitSubstr[j], translitSubstr.size() - j, &str[j2], str.size() - j2, a, b))
 				{
 					j += a - 1;
 					j2 += b - 1;
-- 
2.43.0


From a9e8b9bc904890718bf7d37717bf2d3801bda5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:00 +0000
Subject: [PATCH 087/120] fix: replacing all occurrences of an empty string
 never ended

---
 stingraykit/string/StringUtils.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stingraykit/string/StringUtils.h b/stingraykit/string/StringUtils.h
index 99236fe..645ab49 100644
--- a/stingraykit/string/StringUtils.h
+++ b/stingraykit/string/StringUtils.h
@@ -27,6 +27,9 @@ namespace stingray
 		using StringType = std::basic_string<CharType>;
 		using StringViewType = basic_string_view<CharType>;
 
+		if (from.empty())
+			return str.copy();
+
 		typename std::common_type<typename StringType::size_type, typename StringViewType::size_type>::type index = str.find(from);
 		if (index == StringViewType::npos)
 			return str.copy();
-- 
2.43.0


From 7e376ef691c1cf0a9e8f9755238d9795c32c9e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:00 +0000
Subject: [PATCH 088/120] fix: splitting by an empty delimiter never ended

---
 stingraykit/string/StringUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/string/StringUtils.h b/stingraykit/string/StringUtils.h
index 645ab49..d5f6ba6 100644
--- a/stingraykit/string/StringUtils.h
+++ b/stingraykit/string/StringUtils.h
@@ -207,7 +207,7 @@ namespace stingray
 
 			template < typename StringLikeObject >
 			Detail::DelimiterMatch operator () (const StringLikeObject& string, size_t startPos) const
-			{ return Detail::DelimiterMatch(string.find(_delimiter, startPos), _delimiter.size()); }
+			{ return _delimiter.empty() ? Detail::DelimiterMatch() : Detail::DelimiterMatch(string.find(_delimiter, startPos), _delimiter.size()); }
 
 			size_t size() const
 			{ return _delimiter.size(); }
-- 
2.43.0


From f1261b82a6622978105c97a3b5e18a0998c77540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:00 +0000
Subject: [PATCH 089/120] fix: the first part of a split string was wrong after
 returning to it

---
 stingraykit/string/StringUtils.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stingraykit/string/StringUtils.h b/stingraykit/string/StringUtils.h
index d5f6ba6..dc9fb15 100644
--- a/stingraykit/string/StringUtils.h
+++ b/stingraykit/string/StringUtils.h
@@ -253,6 +253,7 @@ namespace stingray
 			{
 				_startPos = 0;
 				_results = 0;
+				_next = _search(_string, _startPos);
 				return *this;
 			}
 
-- 
2.43.0


From 90d6b96bfb21e44c45d1f85343283dcf0e45b50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:00 +0000
Subject: [PATCH 090/120] fix: splitting by any of given characters referred to
 a destroyed string

---
 stingraykit/string/StringUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/string/StringUtils.h b/stingraykit/string/StringUtils.h
index dc9fb15..d4db68b 100644
--- a/stingraykit/string/StringUtils.h
+++ b/stingraykit/string/StringUtils.h
@@ -183,7 +183,7 @@ namespace stingray
 	class IsAnyOf
 	{
 	private:
-		const std::string&		_list;
+		std::string				_list;
 
 	public:
 		explicit IsAnyOf(const std::string& list) : _list(list) { }
-- 
2.43.0


From 7595d273d7b3891fd837308d3570060d57aade5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:00 +0000
Subject: [PATCH 091/120] fix: references to parts of strings found and took
 characters outside of them

---
 stingraykit/string/StringUtils.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/stingraykit/string/StringUtils.h b/stingraykit/string/StringUtils.h
index d4db68b..8e698b2 100644
--- a/stingraykit/string/StringUtils.h
+++ b/stingraykit/string/StringUtils.h
@@ -128,25 +128,25 @@ namespace stingray
 		std::string::size_type	_end;
 
 	public:
-		StringRef(const std::string& owner, size_t begin = 0, size_t end = npos) : _owner(&owner), _begin(begin), _end(end != npos ? end : owner.size()) { }
+		StringRef(const std::string& owner, size_t begin = 0, size_t end = npos) : _owner(&owner), _begin(begin), _end(std::min(end, owner.size())) { }
 
 		bool empty() const		{ return _begin >= _end; }
 		size_type size() const	{ return _end >= _begin ? _end - _begin : 0; }
 
 		size_type find(const char c, size_type pos = 0) const
 		{
-			const size_type p = _owner->find(c, pos + _begin);
-			return p >= _end ? npos : p - _begin;
+			const string_view::size_type p = view().find(c, pos);
+			return p == string_view::npos ? npos : p;
 		}
 
 		size_type find(const std::string& str, size_type pos = 0) const
 		{
-			const size_type p = _owner->find(str, pos + _begin);
-			return p >= _end ? npos : p - _begin;
+			const string_view::size_type p = view().find(string_view(str), pos);
+			return p == string_view::npos ? npos : p;
 		}
 
 		StringRef substr(size_type pos = 0, size_type n = npos) const
-		{ return StringRef(*_owner, _begin + pos, n == npos ? _end : _begin + pos + n ); }
+		{ return pos >= size() ? StringRef(*_owner, _end, _end) : StringRef(*_owner, _begin + pos, n >= size() - pos ? _end : _begin + pos + n); }
 
 		char operator [] (size_type index) const
 		{ return (*_owner)[_begin + index]; }
-- 
2.43.0


From 95674ef8da30a993371f810a329f76f61c0c10f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:00 +0000
Subject: [PATCH 092/120] fix: string_view searched for characters outside of
 itself, and ignored the position when searching for other than none

---
 stingraykit/string/string_view.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/stingraykit/string/string_view.h b/stingraykit/string/string_view.h
index 3f1d2e1..2acb0da 100644
--- a/stingraykit/string/string_view.h
+++ b/stingraykit/string/string_view.h
@@ -181,10 +181,10 @@ namespace stingray
 
 		size_type find_last_of(basic_string_view v, size_type pos = npos) const
 		{
-			if (v.empty())
+			if (v.empty() || empty())
 				return npos;
 
-			if (pos == npos)
+			if (pos >= size())
 				pos = size() - 1;
 
 			for (size_type i = 0; i <= pos; ++i)
@@ -201,9 +201,6 @@ namespace stingray
 
 		size_type find_first_not_of(basic_string_view v, size_type pos = 0) const
 		{
-			if (v.empty())
-				return 0;
-
 			for (; pos < size(); ++pos)
 			{
 				bool contains = false;
@@ -228,10 +225,10 @@ namespace stingray
 
 		size_type find_last_not_of(basic_string_view v, size_type pos = npos) const
 		{
-			if (v.empty())
+			if (empty())
 				return npos;
 
-			if (pos == npos)
+			if (pos >= size())
 				pos = size() - 1;
 
 			for (size_type i = 0; i <= pos; ++i)
-- 
2.43.0


From 16a03db9a28fb7b511e13a7917fab50d3af71d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:00 +0000
Subject: [PATCH 093/120] fix: string_view compared lengths modulo 2^32

---
 stingraykit/string/string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/string/string_view.h b/stingraykit/string/string_view.h
index 2acb0da..69714e8 100644
--- a/stingraykit/string/string_view.h
+++ b/stingraykit/string/string_view.h
@@ -102,7 +102,7 @@ namespace stingray
 		int compare(basic_string_view v) const
 		{
 			const int result = Traits::compare(data(), v.data(), std::min(size(), v.size()));
-			return result == 0 ? size() - v.size() : result;
+			return result != 0 ? result : size() < v.size() ? -1 : size() > v.size();
 		}
 
 		int compare(size_type pos1, size_type count1, basic_string_view v) const									{ return substr(pos1, count1).compare(v); }
-- 
2.43.0


From 96e97bd4aeaa067144e1fc9686cd52be7b3f1738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:00 +0000
Subject: [PATCH 094/120] fix: a pattern added twice to a multi-pattern search
 was found only under its last index

---
 stingraykit/string/AhoCorasick.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/stingraykit/string/AhoCorasick.h b/stingraykit/string/AhoCorasick.h
index 7ce376d..cfced24 100644
--- a/stingraykit/string/AhoCorasick.h
+++ b/stingraykit/string/AhoCorasick.h
@@ -9,10 +9,13 @@
 // WHETHER IN AN ACTION OF CONTRACT, NEGLIGENCE OR OTHER TORTIOUS ACTION, ARISING OUT OF OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
 
 #include <stingraykit/collection/array.h>
-#include <stingraykit/optional.h>
+#include <stingraykit/collection/array.h>
+#include <stingraykit/exception.h>
 
 #include <algorithm>
 #include <deque>
+#include <string>
+#include <vector>
 
 namespace stingray
 {
@@ -29,7 +32,7 @@ namespace stingray
 			array<size_t, 256>		Next;
 			size_t					Fail;
 
-			optional<size_t>		PatternIndex;
+			std::vector<size_t>		PatternIndices;
 
 			TrieNode(): Fail(None)
 			{ std::fill(Next.begin(), Next.end(), (size_t)None); }
@@ -60,7 +63,7 @@ namespace stingray
 			}
 
 			size_t patternIndex = _patterns.size();
-			_trie[nodeIndex].PatternIndex = patternIndex;
+			_trie[nodeIndex].PatternIndices.push_back(patternIndex);
 			_patterns.push_back(pattern);
 			return patternIndex;
 		}
@@ -129,9 +132,8 @@ namespace stingray
 				for (size_t failIndex = nodeIndex; failIndex != Root; failIndex = _trie[failIndex].Fail)
 				{
 					const TrieNode &node = _trie[failIndex];
-					if (node.PatternIndex)
+					for (size_t patternIndex : node.PatternIndices)
 					{
-						size_t patternIndex = *node.PatternIndex;
 						const std::string &pattern = _patterns[patternIndex];
 						size_t offset = std::distance(begin, it);
 						callback(pattern, patternIndex, 1 + offset - pattern.size());
-- 
2.43.0


From 862ab357e8aeea099bfe5576cb1835f53789cfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:09 +0000
Subject: [PATCH 095/120] fix: messages reached no sink when there were more
 than sixteen of them

---
 stingraykit/log/Logger.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/stingraykit/log/Logger.cpp b/stingraykit/log/Logger.cpp
index e4e9451..19db735 100644
--- a/stingraykit/log/Logger.cpp
+++ b/stingraykit/log/Logger.cpp
@@ -133,7 +133,6 @@ namespace stingray
 		class LoggerImpl
 		{
 			using SinksBundle = std::vector<ILoggerSinkPtr>;
-			using LocalSinksBundle = inplace_vector<ILoggerSinkPtr, 16>;
 
 		private:
 			SinksBundle				_sinks;
@@ -161,10 +160,10 @@ namespace stingray
 				{
 					EnableInterruptionPoints eip(false);
 
-					LocalSinksBundle sinks;
+					SinksBundle sinks;
 					{
 						MutexLock l(_logMutex);
-						std::copy(_sinks.begin(), _sinks.end(), std::back_inserter(sinks));
+						sinks = _sinks;
 					}
 
 					if (sinks.empty())
@@ -180,7 +179,7 @@ namespace stingray
 			{ return _registry; }
 
 		private:
-			static void PutMessageToSinks(const LocalSinksBundle& sinks, const LoggerMessage& message)
+			static void PutMessageToSinks(const SinksBundle& sinks, const LoggerMessage& message)
 			{
 				for (const ILoggerSinkPtr& sink : sinks)
 				{
-- 
2.43.0


From 0f603c58e8889aee6aae3d811917ce13bcbb0bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:09 +0000
Subject: [PATCH 096/120] fix: a logger lost its own level when only backtrace
 or highlight was set up for its name

---
 stingraykit/log/Logger.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stingraykit/log/Logger.cpp b/stingraykit/log/Logger.cpp
index 19db735..02f51dd 100644
--- a/stingraykit/log/Logger.cpp
+++ b/stingraykit/log/Logger.cpp
@@ -62,7 +62,8 @@ namespace stingray
 				const SettingsRegistry::const_iterator it = _settings.find(logger->GetName());
 				if (it != _settings.end())
 				{
-					logger->SetLogLevel(it->second.GetLogLevel());
+					if (it->second.GetLogLevel())
+						logger->SetLogLevel(it->second.GetLogLevel());
 					logger->EnableBacktrace(it->second.BacktraceEnabled());
 					logger->EnableHighlight(it->second.HighlightEnabled());
 				}
-- 
2.43.0


From 14e30c9f030dffa82ce8d10ea2968e3f5253c85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:09 +0000
Subject: [PATCH 097/120] fix: threads that used the same filter of duplicating
 messages raced

---
 stingraykit/log/LoggerStream.cpp | 28 ++++++++++++++++++++++------
 stingraykit/log/LoggerStream.h   |  5 +++++
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/stingraykit/log/LoggerStream.cpp b/stingraykit/log/LoggerStream.cpp
index 1397347..d063fc0 100644
--- a/stingraykit/log/LoggerStream.cpp
+++ b/stingraykit/log/LoggerStream.cpp
@@ -48,13 +48,30 @@ namespace stingray
 			return;
 		}
 
+		optional<std::string> duplicates;
+		if (FilterDuplicates(message, duplicates))
+		{
+			if (duplicates)
+				DoLogImpl(*duplicates);
+			return;
+		}
+
+		if (duplicates)
+			DoLogImpl(*duplicates);
+		DoLogImpl(message); // Displaying first message
+	}
+
+
+	bool LoggerStream::FilterDuplicates(const std::string& message, optional<std::string>& duplicates)
+	{
+		MutexLock l(_duplicatingLogsFilter->GetSyncRoot());
+
 		DuplicatingLogsFilter::StringCounter* stringCounter = _duplicatingLogsFilter->Get(_hideDuplicatingLogs->Key);
 
 		if (!stringCounter->Count)
 		{
-			DoLogImpl(message); // Displaying first message
 			stringCounter->Reset(message, _hideDuplicatingLogs->Interval.is_initialized());
-			return;
+			return false;
 		}
 
 		const bool newMessage = stringCounter->Str != message;
@@ -64,15 +81,14 @@ namespace stingray
 				|| (stringCounter->Elapsed && stringCounter->Elapsed->Elapsed() >= _hideDuplicatingLogs->Interval))
 		{
 			if (stringCounter->Count > 0u)
-				DoLogImpl(StringBuilder() % stringCounter->Str % " (" % stringCounter->Count % " times)");
-
-			if (newMessage)
-				DoLogImpl(message); // Displaying first message
+				duplicates = StringBuilder() % stringCounter->Str % " (" % stringCounter->Count % " times)";
 
 			stringCounter->Reset(message, _hideDuplicatingLogs->Interval.is_initialized());
 		}
 		else
 			++*stringCounter->Count;
+
+		return !newMessage;
 	}
 
 
diff --git a/stingraykit/log/LoggerStream.h b/stingraykit/log/LoggerStream.h
index 7da3417..d08251d 100644
--- a/stingraykit/log/LoggerStream.h
+++ b/stingraykit/log/LoggerStream.h
@@ -11,6 +11,7 @@
 #include <stingraykit/log/LogLevel.h>
 #include <stingraykit/log/NamedLoggerParams.h>
 #include <stingraykit/string/ToString.h>
+#include <stingraykit/thread/Thread.h>
 #include <stingraykit/time/ElapsedTime.h>
 
 #include <stingraykit/unique_ptr.h>
@@ -87,9 +88,12 @@ namespace stingray
 		using LastMessagesMap = std::map<KeyType, StringCounter>;
 
 	private:
+		Mutex											_mutex;
 		LastMessagesMap									_lastMessages;
 
 	public:
+		const Mutex& GetSyncRoot() const { return _mutex; }
+
 		StringCounter* Get(const KeyType& key) { return &_lastMessages[key]; }
 	};
 
@@ -156,6 +160,7 @@ namespace stingray
 	private:
 		void DoLog(const std::string& message);
 		void DoLogImpl(const std::string& message);
+		bool FilterDuplicates(const std::string& message, optional<std::string>& duplicates);
 	};
 
 }
-- 
2.43.0


From 03864ddc0cff842f10d4611082264b16392a5dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:09 +0000
Subject: [PATCH 098/120] fix: a duplicating message that made the count of the
 previous ones displayed was itself lost

---
 stingraykit/log/LoggerStream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stingraykit/log/LoggerStream.cpp b/stingraykit/log/LoggerStream.cpp
index d063fc0..752a757 100644
--- a/stingraykit/log/LoggerStream.cpp
+++ b/stingraykit/log/LoggerStream.cpp
@@ -84,6 +84,8 @@ namespace stingray
 				duplicates = StringBuilder() % stringCounter->Str % " (" % stringCounter->Count % " times)";
 
 			stringCounter->Reset(message, _hideDuplicatingLogs->Interval.is_initialized());
+			if (!newMessage)
+				stringCounter->Count = 1;
 		}
 		else
 			++*stringCounter->Count;
-- 
2.43.0


From b711021295279e6ad5f347a54fe63689402e8bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:17 +0000
Subject: [PATCH 099/120] fix: comparing a value with an optional negated the
 result of the comparer, which is not always possible

---
 stingraykit/optional.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/optional.h b/stingraykit/optional.h
index 046381d..38d9491 100644
--- a/stingraykit/optional.h
+++ b/stingraykit/optional.h
@@ -502,7 +502,7 @@ namespace stingray
 
 		template < typename T >
 		int operator () (const T& lhs, const optional<T>& rhs) const
-		{ return -(*this)(rhs, lhs); }
+		{ return rhs ? _compareFunc(lhs, *rhs) : 1; }
 
 		template < typename T >
 		int operator () (const optional<T>& lhs, const optional<T>& rhs) const
-- 
2.43.0


From 524a769736588c7c57442fd21166185c7e595087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:54 +0000
Subject: [PATCH 100/120] fix: a failed rollback of a transaction undid some
 actions twice and others never

---
 stingraykit/ActionTransaction.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/stingraykit/ActionTransaction.cpp b/stingraykit/ActionTransaction.cpp
index 8d2b484..e09b1b9 100644
--- a/stingraykit/ActionTransaction.cpp
+++ b/stingraykit/ActionTransaction.cpp
@@ -20,7 +20,7 @@ namespace stingray
 
 	ActionTransaction::~ActionTransaction()
 	{
-		if (_active)
+		while (_active)
 			STINGRAYKIT_TRY("Couldn't rollback transaction!", Rollback());
 	}
 
@@ -47,8 +47,12 @@ namespace stingray
 	{
 		STINGRAYKIT_CHECK(_active, "Transaction is inactive!");
 
-		for (RollbackSequence::reverse_iterator it = _rollbackSequence.rbegin(); it != _rollbackSequence.rend(); ++it)
-			(*it)();
+		while (!_rollbackSequence.empty())
+		{
+			const RollbackFunc rollbackFunc = _rollbackSequence.back();
+			_rollbackSequence.pop_back();
+			rollbackFunc();
+		}
 
 		_active = false;
 	}
-- 
2.43.0


From 8744266630c08402430b6752418297a09ec35ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:54 +0000
Subject: [PATCH 101/120] fix: an action was never undone when there was no
 memory to remember it

---
 stingraykit/ActionTransaction.cpp | 4 +++-
 stingraykit/ActionTransaction.h   | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/stingraykit/ActionTransaction.cpp b/stingraykit/ActionTransaction.cpp
index e09b1b9..6da1e57 100644
--- a/stingraykit/ActionTransaction.cpp
+++ b/stingraykit/ActionTransaction.cpp
@@ -29,9 +29,11 @@ namespace stingray
 	{
 		STINGRAYKIT_CHECK(_active, "Transaction is inactive!");
 
+		RollbackSequence rollbackSequence(1, rollbackFunc);
+
 		actionFunc();
 
-		_rollbackSequence.push_back(rollbackFunc);
+		_rollbackSequence.splice(_rollbackSequence.end(), rollbackSequence);
 	}
 
 
diff --git a/stingraykit/ActionTransaction.h b/stingraykit/ActionTransaction.h
index 1e4732f..019c02a 100644
--- a/stingraykit/ActionTransaction.h
+++ b/stingraykit/ActionTransaction.h
@@ -9,7 +9,7 @@
 // WHETHER IN AN ACTION OF CONTRACT, NEGLIGENCE OR OTHER TORTIOUS ACTION, ARISING OUT OF OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
 
 
-#include <vector>
+#include <list>
 
 #include <stingraykit/function/function.h>
 
@@ -26,7 +26,7 @@ namespace stingray
 		typedef function<void ()> RollbackFunc;
 
 	private:
-		typedef std::vector<RollbackFunc> RollbackSequence;
+		typedef std::list<RollbackFunc> RollbackSequence;
 
 	private:
 		RollbackSequence	_rollbackSequence;
-- 
2.43.0


From cc1b7afdd7f6364e8a8c78fd9acfed31640b8450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:54 +0000
Subject: [PATCH 102/120] fix: a failed cleanup of a holder was run again

---
 stingraykit/Holder.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/stingraykit/Holder.h b/stingraykit/Holder.h
index 62a7571..1d47af3 100644
--- a/stingraykit/Holder.h
+++ b/stingraykit/Holder.h
@@ -57,9 +57,11 @@ namespace stingray
 		void Check() const { STINGRAYKIT_CHECK(_valid, LogicException("ScopedHolder is not valid!")); }
 		void Cleanup()
 		{
-			if (_valid)
-				_cleanupFunc(_handle);
+			if (!_valid)
+				return;
+
 			_valid = false;
+			_cleanupFunc(_handle);
 		}
 	};
 
@@ -84,12 +86,19 @@ namespace stingray
 		~ScopedHolder()			{ STINGRAYKIT_TRY_NO_MESSAGE(Cleanup()); }
 
 		bool Valid() const		{ return _valid; }
-		void Clear()			{ Cleanup(); _valid = false; }
+		void Clear()			{ Cleanup(); }
 		void Set()				{ Cleanup(); _valid = true; }
 
 	private:
 		void Check() const		{ STINGRAYKIT_CHECK(_valid, LogicException("ScopedHolder is not valid!")); }
-		void Cleanup() const	{ if (_valid) _cleanupFunc(); }
+		void Cleanup()
+		{
+			if (!_valid)
+				return;
+
+			_valid = false;
+			_cleanupFunc();
+		}
 	};
 
 
-- 
2.43.0


From 25e1d7f8670061fbbfa2a3f0604a5bcc878c01c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:54 +0000
Subject: [PATCH 103/120] fix: a map of tokens was corrupted when a token being
 released used it

---
 stingraykit/Token.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stingraykit/Token.h b/stingraykit/Token.h
index 931ac94..e94a2fa 100644
--- a/stingraykit/Token.h
+++ b/stingraykit/Token.h
@@ -276,10 +276,14 @@ namespace stingray
 		{ return BracketsOperatorProxy(_tokens, std::move(key)); }
 
 		void release(const Key& key)
-		{ _tokens.erase(key); }
+		{
+			const std::pair<typename Tokens::iterator, typename Tokens::iterator> range = _tokens.equal_range(key);
+			const std::vector<Token> tokens(values_iterator(range.first), values_iterator(range.second));
+			_tokens.erase(range.first, range.second);
+		}
 
 		void release_all()
-		{ _tokens.clear(); }
+		{ Tokens().swap(_tokens); }
 	};
 
 
-- 
2.43.0


From 1b7a190509889bc17d013b4c0dfee86eea2a2381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:25 +0000
Subject: [PATCH 104/120] fix: a spurious wake-up let a thread through a
 barrier before the others came

---
 stingraykit/thread/Barrier.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stingraykit/thread/Barrier.h b/stingraykit/thread/Barrier.h
index 04d04da..ac3650b 100644
--- a/stingraykit/thread/Barrier.h
+++ b/stingraykit/thread/Barrier.h
@@ -46,7 +46,10 @@ namespace stingray
 				_cv.Broadcast();
 			}
 			else
-				_cv.Wait(_mutex);
+			{
+				while (!_releasing)
+					_cv.Wait(_mutex);
+			}
 			if (--_currentCount == 0)
 			{
 				_releasing = false;
-- 
2.43.0


From 061f9eb2ba1e4d05e5395e9e89fac1b14c07a34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:25 +0000
Subject: [PATCH 105/120] fix: statistics of threads were those of the leader
 of the process group

---
 stingraykit/thread/posix/PosixThreadEngine.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/stingraykit/thread/posix/PosixThreadEngine.cpp b/stingraykit/thread/posix/PosixThreadEngine.cpp
index f5b850b..6a8aa85 100644
--- a/stingraykit/thread/posix/PosixThreadEngine.cpp
+++ b/stingraykit/thread/posix/PosixThreadEngine.cpp
@@ -514,7 +514,7 @@ namespace stingray
 
 			ThreadCpuStats cpuStats;
 			Stat s;
-			if (Stat::GetThreadStats(getpgid((pid_t)0), GetKernelId(), s))
+			if (Stat::GetThreadStats(getpid(), GetKernelId(), s))
 				cpuStats = CpuStatsFromTicks(s.utime, s.stimev);
 			else
 				PTELogger.Debug() << "Can't get thread stats for thread '" << _data->GetThreadName() << "' with tid = " << GetKernelId();
@@ -722,10 +722,9 @@ namespace stingray
 
 		shared_ptr<ThreadsRegistry> registry = SafeSingleton<ThreadsRegistry>::Instance();
 
-		pid_t gid = getpgid((pid_t)0);
-		STINGRAYKIT_CHECK(gid != -1, SystemException("getpgid"));
+		const pid_t pid = getpid();
 
-		ScopedHolder<DIR*> rootDir(opendir(("/proc/" + ToString(gid) + "/task").c_str()), &closedir);
+		ScopedHolder<DIR*> rootDir(opendir(("/proc/" + ToString(pid) + "/task").c_str()), &closedir);
 		STINGRAYKIT_CHECK(rootDir.Get() != NULL, SystemException("opendir"));
 
 		struct dirent* dirEntry;
@@ -741,7 +740,7 @@ namespace stingray
 
 			Stat stat;
 			u64 tid = FromString<u64>(dirName);
-			if (S_ISDIR(st.st_mode) && Stat::GetThreadStats(gid, tid, stat))
+			if (S_ISDIR(st.st_mode) && Stat::GetThreadStats(pid, tid, stat))
 			{
 				std::string threadName(stat.tcomm);
 				ThreadCpuStats childrenStats;
-- 
2.43.0


From 5b6910be008c7918de000c1bd55b04e052629ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:17 +0000
Subject: [PATCH 106/120] fix: a thread-local value was used after it had been
 destroyed at the exit of the thread

---
 stingraykit/thread/posix/ThreadLocal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/thread/posix/ThreadLocal.h b/stingraykit/thread/posix/ThreadLocal.h
index c072a4b..7db8ced 100644
--- a/stingraykit/thread/posix/ThreadLocal.h
+++ b/stingraykit/thread/posix/ThreadLocal.h
@@ -74,7 +74,7 @@
 		} \
 	private: \
 		static void Dtor(void* val) \
-		{ ValueHolder* holder = static_cast<ValueHolder*>(val); stingray::CheckedDelete(holder); } \
+		{ s_value = NULL; ValueHolder* holder = static_cast<ValueHolder*>(val); stingray::CheckedDelete(holder); } \
 	};
 
 #	define STINGRAYKIT_DEFINE_THREAD_LOCAL(Type_, Name_) __thread Type_* Name_::s_value = NULL
-- 
2.43.0


From 8f3534558cd7e0547490e9b89b1d3e471dca47c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:22 +0000
Subject: [PATCH 107/120] fix: a packet could wait forever for a place in an
 empty packet buffer

---
 stingraykit/io/PacketBuffer.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stingraykit/io/PacketBuffer.h b/stingraykit/io/PacketBuffer.h
index f91f97c..373b892 100644
--- a/stingraykit/io/PacketBuffer.h
+++ b/stingraykit/io/PacketBuffer.h
@@ -82,6 +82,13 @@ namespace stingray
 			MutexLock l1(_writeMutex); // we need this mutex because write can be called simultaneously from several threads
 			MutexLock l2(_bufferMutex);
 
+			if (_packetQueue.empty())
+			{
+				// nobody reads now, so start from the beginning, otherwise there can be no contiguous place for a big packet
+				_buffer.Clear();
+				_paddingSize = 0;
+			}
+
 			BithreadCircularBuffer::Writer w = _buffer.Write();
 			size_t padding_size = (w.size() < data.size() && w.IsBufferEnd()) ? w.size() : 0;
 			if (_buffer.GetFreeSize() < padding_size + data.size())
-- 
2.43.0


From acccd68b5abc315e354573d630e651f64b839a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:46 +0000
Subject: [PATCH 108/120] fix: a data aligner lost a block when it was
 cancelled or its consumer failed

---
 stingraykit/io/DataAligner.h | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/stingraykit/io/DataAligner.h b/stingraykit/io/DataAligner.h
index 14d21dd..8f9696c 100644
--- a/stingraykit/io/DataAligner.h
+++ b/stingraykit/io/DataAligner.h
@@ -20,12 +20,14 @@ namespace stingray
 		IDataSourcePtr	_source;
 		size_t			_alignment;
 		ByteArray		_buffer;
+		size_t			_processed;
 		bool			_useBuffer;
 
 	public:
 		DataAligner(const IDataSourcePtr& source, size_t alignment, bool useBuffer = true)
 			:	_source(STINGRAYKIT_REQUIRE_NOT_NULL(source)),
 				_alignment(alignment),
+				_processed(0),
 				_useBuffer(useBuffer)
 		{ STINGRAYKIT_CHECK(_alignment != 0, ArgumentException("alignment")); }
 
@@ -33,7 +35,10 @@ namespace stingray
 		{ _source->ReadToFunction(Bind(&DataAligner::Align, this, wrap_ref(consumer), _1, _2), Bind(&IDataConsumer::EndOfData, wrap_ref(consumer), _1), token); }
 
 		void Reset()
-		{ _buffer.clear(); }
+		{
+			_buffer.clear();
+			_processed = 0;
+		}
 
 	private:
 		size_t Align(IDataConsumer& consumer, ConstByteData data, const ICancellationToken& token)
@@ -54,14 +59,26 @@ namespace stingray
 
 			const size_t offset = std::min(_alignment - _buffer.size(), data.size());
 
-			_buffer.append(ConstByteData(data, 0, offset));
-
-			if (_buffer.size() == _alignment)
+			if (_buffer.size() + offset < _alignment)
 			{
-				ConsumeAll(consumer, _buffer, token);
-				_buffer.clear();
+				_buffer.append(ConstByteData(data, 0, offset));
+				return offset;
 			}
 
+			ByteArray block;
+			block.reserve(_alignment);
+			block.append(_buffer);
+			block.append(ConstByteData(data, 0, offset));
+
+			while (token && _processed < _alignment)
+				_processed += consumer.Process(ConstByteData(block, _processed), token);
+
+			if (_processed < _alignment)
+				return 0; // The source keeps the rest until the whole block is consumed
+
+			_buffer.clear();
+			_processed = 0;
+
 			return offset;
 		}
 	};
-- 
2.43.0


From 9e3484c59f12dd5dd311c4c8d4db8dfdbb7d2f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:22 +0000
Subject: [PATCH 109/120] fix: the rest of a packet was lost when its
 conversion into bytes was cancelled

---
 stingraykit/io/DataPacketer.h | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/stingraykit/io/DataPacketer.h b/stingraykit/io/DataPacketer.h
index 08ebf21..f854078 100644
--- a/stingraykit/io/DataPacketer.h
+++ b/stingraykit/io/DataPacketer.h
@@ -18,26 +18,37 @@ namespace stingray
 	private:
 		IDataConsumerPtr	_lifeAssurance;
 		IDataConsumer&		_consumer;
+		size_t				_processed;
 
 	public:
-		explicit ConsumerDepacketer(const IDataConsumerPtr& consumer)
+		explicit ConsumerDepacketer(const IDataConsumerPtr& consumer, size_t processed = 0)
 			:	_lifeAssurance(consumer),
-				_consumer(*_lifeAssurance)
+				_consumer(*_lifeAssurance),
+				_processed(processed)
 		{ }
 
-		explicit ConsumerDepacketer(IDataConsumer& consumer)
+		explicit ConsumerDepacketer(IDataConsumer& consumer, size_t processed = 0)
 			:	_lifeAssurance(null),
-				_consumer(consumer)
+				_consumer(consumer),
+				_processed(processed)
 		{ }
 
 		bool Process(const Packet<EmptyType>& packet, const ICancellationToken& token) override
 		{
-			ConsumeAll(_consumer, packet.GetData(), token);
+			_processed += ConsumeAll(_consumer, ConstByteData(packet.GetData(), _processed), token);
+			if (_processed < packet.GetSize())
+				return false;
+
+			_processed = 0;
 			return true;
 		}
 
 		void EndOfData() override
 		{ _consumer.EndOfData(DummyCancellationToken()); }
+
+		/// @brief Size of the consumed part of the packet that has been interrupted by cancellation
+		size_t GetProcessedSize() const
+		{ return _processed; }
 	};
 	STINGRAYKIT_DECLARE_PTR(ConsumerDepacketer);
 
@@ -114,20 +125,27 @@ namespace stingray
 	private:
 		PacketSourcePtr		_lifeAssurance;
 		PacketSource&		_source;
+		size_t				_processed;
 
 	public:
 		explicit DataDepacketer(const PacketSourcePtr& source)
 			:	_lifeAssurance(source),
-				_source(*_lifeAssurance)
+				_source(*_lifeAssurance),
+				_processed(0)
 		{ }
 
 		explicit DataDepacketer(PacketSource& source)
 			:	_lifeAssurance(null),
-				_source(source)
+				_source(source),
+				_processed(0)
 		{ }
 
 		void Read(IDataConsumer& consumer, const ICancellationToken& token) override
-		{ ConsumerDepacketer depacketer(consumer); _source.Read(depacketer, token); }
+		{
+			ConsumerDepacketer depacketer(consumer, _processed);
+			_source.Read(depacketer, token);
+			_processed = depacketer.GetProcessedSize();
+		}
 	};
 	STINGRAYKIT_DECLARE_PTR(DataDepacketer);
 
-- 
2.43.0


From d802f8d9ed5321031f98b56c07277643779298ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:30 +0000
Subject: [PATCH 110/120] fix: a bidirectional iterator of a reference-counting
 map could not go backwards

---
 stingraykit/collection/RefCountingMap.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/stingraykit/collection/RefCountingMap.h b/stingraykit/collection/RefCountingMap.h
index bcc4676..9c1dd10 100644
--- a/stingraykit/collection/RefCountingMap.h
+++ b/stingraykit/collection/RefCountingMap.h
@@ -69,7 +69,7 @@ namespace stingray
 
 			template < bool Const_>
 			bool equal(const Iterator<Const_>& other) const
-			{ return _implIt == other._implIt; }
+			{ return _implIt == other.GetImpl(); }
 
 			void increment()
 			{
@@ -77,6 +77,12 @@ namespace stingray
 				_pair.reset();
 			}
 
+			void decrement()
+			{
+				--_implIt;
+				_pair.reset();
+			}
+
 			ImplIterator GetImpl() const
 			{ return _implIt; }
 		};
-- 
2.43.0


From 34542f7a5774f10350456b1ce15006215c50fd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:10 +0000
Subject: [PATCH 111/120] fix: a failed removal left entries without references
 in reference-counting collections

---
 stingraykit/collection/RefCountingMap.h   | 14 ++++++--------
 stingraykit/collection/RefCountingSet.h   | 14 ++++++--------
 stingraykit/collection/RefCountingValue.h |  6 +++---
 3 files changed, 15 insertions(+), 19 deletions(-)

diff --git a/stingraykit/collection/RefCountingMap.h b/stingraykit/collection/RefCountingMap.h
index 9c1dd10..c2a12f5 100644
--- a/stingraykit/collection/RefCountingMap.h
+++ b/stingraykit/collection/RefCountingMap.h
@@ -133,11 +133,7 @@ namespace stingray
 			if (implIt == _impl.end())
 				return 0;
 
-			if (--implIt->second.References > 0)
-				return 1;
-
-			doRemoveFunc(implIt->first, implIt->second.Value);
-			_impl.erase(implIt);
+			erase(implIt, doRemoveFunc);
 			return 1;
 		}
 
@@ -145,8 +141,11 @@ namespace stingray
 		void erase(iterator it, const DoRemoveFunc& doRemoveFunc)
 		{
 			const typename Impl::iterator implIt = it.GetImpl();
-			if (--implIt->second.References > 0)
+			if (implIt->second.References > 1)
+			{
+				--implIt->second.References;
 				return;
+			}
 
 			doRemoveFunc(implIt->first, implIt->second.Value);
 			_impl.erase(implIt);
@@ -155,9 +154,8 @@ namespace stingray
 		template < typename DoRemoveFunc >
 		void clear(const DoRemoveFunc& doRemoveFunc)
 		{
-			for (typename Impl::iterator it = _impl.begin(); it != _impl.end(); ++it)
+			for (typename Impl::iterator it = _impl.begin(); it != _impl.end(); it = _impl.erase(it))
 				doRemoveFunc(it->first, it->second.Value);
-			_impl.clear();
 		}
 	};
 
diff --git a/stingraykit/collection/RefCountingSet.h b/stingraykit/collection/RefCountingSet.h
index 11e37a9..4a3157e 100644
--- a/stingraykit/collection/RefCountingSet.h
+++ b/stingraykit/collection/RefCountingSet.h
@@ -70,11 +70,7 @@ namespace stingray
 			if (it == _impl.end())
 				return 0;
 
-			if (--it->second == 0)
-			{
-				doRemoveFunc(it->first);
-				_impl.erase(it);
-			}
+			erase(iterator(it), doRemoveFunc);
 			return 1;
 		}
 
@@ -82,8 +78,11 @@ namespace stingray
 		void erase(iterator it, const DoRemoveFunc& doRemoveFunc)
 		{
 			const typename Impl::iterator implIt = it.base();
-			if (--implIt->second > 0)
+			if (implIt->second > 1)
+			{
+				--implIt->second;
 				return;
+			}
 
 			doRemoveFunc(implIt->first);
 			_impl.erase(implIt);
@@ -92,9 +91,8 @@ namespace stingray
 		template < typename DoRemoveFunc >
 		void clear(const DoRemoveFunc& doRemoveFunc)
 		{
-			for (typename Impl::iterator it = _impl.begin(); it != _impl.end(); ++it)
+			for (typename Impl::iterator it = _impl.begin(); it != _impl.end(); it = _impl.erase(it))
 				doRemoveFunc(it->first);
-			_impl.clear();
 		}
 	};
 
diff --git a/stingraykit/collection/RefCountingValue.h b/stingraykit/collection/RefCountingValue.h
index ae9d349..9c427f0 100644
--- a/stingraykit/collection/RefCountingValue.h
+++ b/stingraykit/collection/RefCountingValue.h
@@ -48,12 +48,13 @@ namespace stingray
 			if (_refs == 0)
 				return false;
 
-			if (--_refs == 0)
+			if (_refs == 1)
 			{
 				doReleaseFunc(*_value);
 				_value.reset();
 			}
 
+			--_refs;
 			return true;
 		}
 
@@ -63,10 +64,9 @@ namespace stingray
 			if (_refs == 0)
 				return;
 
-			_refs = 0;
-
 			doReleaseFunc(*_value);
 			_value.reset();
+			_refs = 0;
 		}
 	};
 
-- 
2.43.0


From 384def3e49665b56378bd02ddc0ba68a376c3a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:10 +0000
Subject: [PATCH 112/120] fix: an item of a reference-counting set was
 announced although it could not be added

---
 stingraykit/collection/RefCountingSet.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/stingraykit/collection/RefCountingSet.h b/stingraykit/collection/RefCountingSet.h
index 4a3157e..57978b1 100644
--- a/stingraykit/collection/RefCountingSet.h
+++ b/stingraykit/collection/RefCountingSet.h
@@ -59,8 +59,17 @@ namespace stingray
 				return keys_iterator(it);
 			}
 
-			doAddFunc(key);
-			return keys_iterator(_impl.emplace(key, 1).first);
+			const typename Impl::iterator addedIt = _impl.emplace(key, 0).first;
+			try
+			{ doAddFunc(key); }
+			catch (...)
+			{
+				_impl.erase(addedIt);
+				throw;
+			}
+
+			++addedIt->second;
+			return keys_iterator(addedIt);
 		}
 
 		template < typename DoRemoveFunc >
-- 
2.43.0


From 0e077254c7f22c913c01246bdd00a17201d2e73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:25 +0000
Subject: [PATCH 113/120] fix: completions of command line parameters spoilt
 those of other commands and did not fit the line

---
 stingraykit/CmdLine.h | 124 ++++++++++++++++--------------------------
 1 file changed, 47 insertions(+), 77 deletions(-)

diff --git a/stingraykit/CmdLine.h b/stingraykit/CmdLine.h
index 9c1e1f9..fd851ad 100644
--- a/stingraykit/CmdLine.h
+++ b/stingraykit/CmdLine.h
@@ -141,48 +141,11 @@ namespace stingray
 			static bool Complete(std::string& input, std::set<std::string>& results, const CustomCompleteFuncsMap& customComplete, long)
 			{
 				CustomCompleteFuncsMap::const_iterator it = customComplete.find(N);
-				if (it == customComplete.end())
-				{
-					std::string str_val;
-					size_t read_size = CmdArgReader::Read(input.c_str(), input.size(), str_val, 0);
-					if (input.size() > read_size)
-					{
-						input.erase(0, read_size + 1);
-						return true;
-					}
-					return false;
-				}
+				if (it != customComplete.end())
+					return CompleteWithVariants(input, results, (*it->second)());
 
-				const CustomCompleteFunc& complete_func = *(it->second);
-				std::set<std::string> pre_complete_list = complete_func();
-
-				std::string str_val;
-				size_t read_size = CmdArgReader::Read(input.c_str(), input.size(), str_val, 0);
-				bool got_exact_match = false;
-				std::set<std::string>::const_iterator iter = pre_complete_list.begin(), iend = pre_complete_list.end();
-				for(; iter != iend; ++iter)
-				{
-					std::string str(*iter);
-					if (str_val.size() > str.size())
-						continue;
-					if (str_val == str)
-						got_exact_match = true;
-					if (str.substr(0, str_val.size()) == str_val)
-					{
-						std::string res(str.substr(str_val.size()));
-						res = ReplaceAll(res, " ", "\\ ");
-						res = ReplaceAll(res, "]", "\\]");
-						res = ReplaceAll(res, ",", "\\,");
-						results.insert(res + " ");
-					}
-				}
-				input.erase(0, read_size);
-				bool ret = got_exact_match && (results.size() == 1 || !input.empty());
-				if (!input.empty())
-					input.erase(0, 1);
-				if (ret)
-					results.clear();
-				return ret;
+				T value = T();
+				return SkipValue(input, CmdArgReader::Read(input.c_str(), input.size(), value, 0));
 			}
 
 			template < typename T >
@@ -192,27 +155,11 @@ namespace stingray
 				if (customComplete.find(N) != customComplete.end())
 					return CmdArgCompleter<N>::Complete<T>(input, results, customComplete, 0L);
 
-				std::string str_val;
-				size_t read_size = CmdArgReader::Read(input.c_str(), input.size(), str_val, 0);
-				bool got_exact_match = false;
-				typename T::const_iterator iter = T::begin(), iend = T::end();
-				for(; iter != iend; ++iter)
-				{
-					std::string str(iter->ToString());
-					if (str_val.size() > str.size())
-						continue;
-					if (str_val == str)
-						got_exact_match = true;
-					if (str.substr(0, str_val.size()) == str_val)
-						results.insert(str.substr(str_val.size()) + " ");
-				}
-				input.erase(0, read_size);
-				bool ret = got_exact_match && (results.size() == 1 || !input.empty());
-				if (!input.empty())
-					input.erase(0, 1);
-				if (ret)
-					results.clear();
-				return ret;
+				std::set<std::string> variants;
+				for (typename T::const_iterator iter = T::begin(), iend = T::end(); iter != iend; ++iter)
+					variants.insert(iter->ToString());
+
+				return CompleteWithVariants(input, results, variants);
 			}
 
 			template < typename T >
@@ -221,27 +168,50 @@ namespace stingray
 				if (customComplete.find(N) != customComplete.end())
 					return CmdArgCompleter<N>::Complete<T>(input, results, customComplete, 0L);
 
+				return CompleteWithVariants(input, results, { "on", "off", "true", "false" });
+			}
+
+		private:
+			static bool CompleteWithVariants(std::string& input, std::set<std::string>& results, const std::set<std::string>& variants)
+			{
 				std::string value;
 				const size_t size = CmdArgReader::Read(input.c_str(), input.size(), value, 0);
 
-				bool got_exact_match = false;
-				const std::vector<std::string> variants = { "on", "off", "true", "false" };
-				for(std::vector<std::string>::const_iterator it = variants.begin(); it != variants.end(); ++it)
+				if (size != input.size())
+					return variants.count(value) != 0 && SkipValue(input, size);
+
+				size_t backslashes = 0;
+				while (backslashes < size && input[size - backslashes - 1] == '\\')
+					++backslashes;
+
+				for (std::set<std::string>::const_iterator it = variants.begin(); it != variants.end(); ++it)
 				{
-					if (value.size() > (*it).length())
+					if (it->compare(0, value.size(), value) != 0)
 						continue;
-					if (value == (*it))
-						got_exact_match = true;
-					if ((*it).substr(0, value.size()) == value)
-						results.insert((*it).substr(value.size()) + " ");
+
+					std::string result;
+					bool escaping = backslashes % 2 != 0;
+					for (size_t i = value.size(); i < it->size(); ++i)
+					{
+						const char c = (*it)[i];
+						if (!escaping && (c == ' ' || c == ']' || c == ',' || c == '\\'))
+							result.push_back('\\');
+						result.push_back(c);
+						escaping = false;
+					}
+					results.insert(result + " ");
 				}
-				input.erase(0, size);
-				bool ret = got_exact_match && (results.size() == 1 || !input.empty());
-				if (!input.empty())
-					input.erase(0, 1);
-				if (ret)
-					results.clear();
-				return ret;
+
+				return false;
+			}
+
+			static bool SkipValue(std::string& input, size_t size)
+			{
+				if (size == 0 || size >= input.size() || input[size] != ' ')
+					return false;
+
+				input.erase(0, size + 1);
+				return true;
 			}
 		};
 	}
-- 
2.43.0


From 47e6bd124065b9a2f9558f1992fb7c5bef247668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:25 +0000
Subject: [PATCH 114/120] fix: a command that removed itself was destroyed
 while running

---
 stingraykit/CmdLine.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stingraykit/CmdLine.h b/stingraykit/CmdLine.h
index fd851ad..f56fa96 100644
--- a/stingraykit/CmdLine.h
+++ b/stingraykit/CmdLine.h
@@ -383,7 +383,8 @@ namespace stingray
 				if (!guard)
 					return false;
 
-				FunctorInvoker::Invoke(*_handler, args);
+				const HandlerFunc handler(*_handler); // handler may be released by itself
+				FunctorInvoker::Invoke(handler, args);
 				return true;
 			}
 
-- 
2.43.0


From 60175ae9e491aa62021323c5626ddfb5687e12f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:02 +0000
Subject: [PATCH 115/120] fix: a stage of a data pipe could not give the rest
 of its data at the end of data

---
 stingraykit/DataPipe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/DataPipe.h b/stingraykit/DataPipe.h
index 7c4f839..55a5b0f 100644
--- a/stingraykit/DataPipe.h
+++ b/stingraykit/DataPipe.h
@@ -54,7 +54,7 @@ namespace stingray {
 			static RetType EndOfData(StagesTuple& stages, const Consumer& consumer, const EodFunc& eod)
 			{
 				return stages.GetHead().EndOfData(
-					Bind(&NextStage::template Process<OutputType, Consumer>, wrap_ref(stages.GetTail()), wrap_const_ref(consumer), _1),
+					Bind(&NextStage::template Process<OutputType, Consumer>, wrap_ref(stages.GetTail()), _1, wrap_const_ref(consumer)),
 					Bind(&NextStage::template EndOfData<Consumer, EodFunc>, wrap_ref(stages.GetTail()), wrap_const_ref(consumer), wrap_const_ref(eod)));
 			}
 
-- 
2.43.0


From 818d24aacf6868c9e8b2c8758c908dfb75e82ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:32 +0000
Subject: [PATCH 116/120] fix: a functor whose copying failed was destroyed by
 the function made of it

---
 stingraykit/function/function.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/stingraykit/function/function.h b/stingraykit/function/function.h
index 53e0472..b59f3a6 100644
--- a/stingraykit/function/function.h
+++ b/stingraykit/function/function.h
@@ -50,8 +50,8 @@ namespace stingray
 			typedef VTable GetVTableFunc();
 			GetVTableFunc*	_getVTable;
 
-			IInvokableBase(GetVTableFunc* func) : _getVTable(func) { }
-			~IInvokableBase() { _getVTable().Dtor(this); }
+			IInvokableBase() : _getVTable(NULL) { }
+			~IInvokableBase() { if (_getVTable) _getVTable().Dtor(this); } // there is no functor to destroy if its constructor has thrown
 		};
 
 
@@ -62,8 +62,6 @@ namespace stingray
 			typedef IInvokable<R, Ts...>							MyType;
 
 			typedef R InvokeFunc(MyType*, Ts...);
-
-			IInvokable(GetVTableFunc* func) : BaseType(func) { }
 		};
 
 
@@ -88,8 +86,8 @@ namespace stingray
 
 		public:
 			Invokable(FunctorType&& func)
-				: BaseType(&MyType::GetVTable), _func(std::forward<FunctorType>(func))
-			{ }
+				: _func(std::forward<FunctorType>(func))
+			{ this->_getVTable = &MyType::GetVTable; }
 
 			static VTable GetVTable()
 			{ return VTable(&MyType::Dtor, reinterpret_cast<typename VTable::InvokePtr>(&MyType::Invoke), &MyType::GetName); }
-- 
2.43.0


From 40e53b94be3e987beb504d2b77b35ce5b46a1215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:59 +0000
Subject: [PATCH 117/120] fix: a language code made of a number was wrong for
 bytes above 127

---
 stingraykit/locale/LangCode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/locale/LangCode.cpp b/stingraykit/locale/LangCode.cpp
index 69e1e77..aa7fd55 100644
--- a/stingraykit/locale/LangCode.cpp
+++ b/stingraykit/locale/LangCode.cpp
@@ -36,7 +36,7 @@ namespace stingray
 			array<char, 3> r;
 			std::transform(c.begin(), c.end(), r.begin(), &DoToUpper);
 
-			return (u32)(r[0] << 16) + (r[1] << 8) + r[2];
+			return ((u32)(u8)r[0] << 16) | ((u32)(u8)r[1] << 8) | (u8)r[2];
 		}
 
 	}
-- 
2.43.0


From 8039b4954fdf58d4a0953b944abb0a60714b67bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:59 +0000
Subject: [PATCH 118/120] fix: bit fields of signed types spoilt the preceding
 ones

---
 stingraykit/IntegerBuilder.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/stingraykit/IntegerBuilder.h b/stingraykit/IntegerBuilder.h
index a89d2c2..7fb3d04 100644
--- a/stingraykit/IntegerBuilder.h
+++ b/stingraykit/IntegerBuilder.h
@@ -36,8 +36,12 @@ namespace stingray
 		{
 			static_assert(IsFixedWidthInt<U>::Value, "Integer must have fixed width");
 
-			_result <<= fieldSize;
-			_result |= ResetMostSignificantBits(field, 8 * sizeof(U) - fieldSize);
+			using UnsignedIntegerType = typename std::make_unsigned<IntegerType>::type;
+
+			UnsignedIntegerType result = _result;
+			result <<= fieldSize;
+			result |= ResetMostSignificantBits<typename std::make_unsigned<U>::type>(field, 8 * sizeof(U) - fieldSize);
+			_result = result;
 
 			return *this;
 		}
@@ -50,8 +54,8 @@ namespace stingray
 
 	private:
 		template<typename U>
-		U ResetMostSignificantBits(const U& field, size_t count)
-		{ return field & (static_cast<U>(~0) >> count); }
+		static U ResetMostSignificantBits(U field, size_t count)
+		{ return field & (static_cast<U>(~U()) >> count); }
 	};
 
 	/** @} */
-- 
2.43.0


From 0144dd9489dc0a716216ac7d6fce1554fde4827b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:31 +0000
Subject: [PATCH 119/120] fix: an entity was created from a copy of the stream

---
 stingraykit/GenericEntityFactory.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/GenericEntityFactory.h b/stingraykit/GenericEntityFactory.h
index 23eb887..9c22af7 100644
--- a/stingraykit/GenericEntityFactory.h
+++ b/stingraykit/GenericEntityFactory.h
@@ -26,7 +26,7 @@ namespace stingray
 			struct BranchNode
 			{
 				template < typename... Ts >
-				static ReturnType Process(typename TagType::Enum tag, Ts... args)
+				static ReturnType Process(typename TagType::Enum tag, Ts&&... args)
 				{
 					if (tag == Entry::Tag)
 						return Entry::Type::Do(args...);
@@ -40,7 +40,7 @@ namespace stingray
 			struct LeafNode
 			{
 				template < typename... Ts >
-				static ReturnType Process(typename TagType::Enum tag, Ts...)
+				static ReturnType Process(typename TagType::Enum tag, Ts&&...)
 				{ return LeafFunc<ReturnType>::Do(TagType(tag)); }
 			};
 
-- 
2.43.0


From a0170c0323cdf490c9406df90553abe6b93cae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:01 +0000
Subject: [PATCH 120/120] fix: reading a translated text changed its copies

---
 stingraykit/string/TranslatedString.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stingraykit/string/TranslatedString.cpp b/stingraykit/string/TranslatedString.cpp
index a32b29a..26282e6 100644
--- a/stingraykit/string/TranslatedString.cpp
+++ b/stingraykit/string/TranslatedString.cpp
@@ -57,7 +57,12 @@ namespace stingray
 
 
 	void TranslatedString::Deserialize(ObjectIStream& ar)
-	{ ar.Deserialize("translations", *_dictionary); }
+	{
+		// copies of this object share its dictionary
+		const DictionaryImplPtr dictionary = make_shared_ptr<MapDictionary<LangCode, std::string>>();
+		ar.Deserialize("translations", *dictionary);
+		_dictionary = dictionary;
+	}
 
 
 	std::string TranslatedString::ToString() const
-- 
2.43.0

