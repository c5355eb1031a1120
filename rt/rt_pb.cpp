// Stand-ins for the out-of-line part of libprotobuf-lite, which is installed
// as a binary only. Compiled (with -fno-access-control) into the module that
// symex executes; native replays link the real library instead, so every
// validated trace also compares these stand-ins with it.
#include <google/protobuf/arena.h>
#include <google/protobuf/arenastring.h>
#include <google/protobuf/generated_message_util.h>
#include <google/protobuf/message_lite.h>
#include <google/protobuf/metadata_lite.h>
#include <google/protobuf/repeated_field.h>
#include <google/protobuf/repeated_ptr_field.h>
#include <google/protobuf/stubs/logging.h>

#include <cstdlib>
#include <cstring>
#include <new>

namespace google
{
namespace protobuf
{
template class RepeatedField<bool>;
template class RepeatedField<int32_t>;
template class RepeatedField<uint32_t>;
template class RepeatedField<int64_t>;
template class RepeatedField<uint64_t>;

std::string MessageLite::InitializationErrorString() const
{
	return "(cannot determine missing fields for lite message)";
}

namespace internal
{
ExplicitlyConstructedArenaString fixed_address_empty_string;
std::atomic<bool> init_protobuf_defaults_state{false};

void InitProtobufDefaultsSlow()
{
	if(init_protobuf_defaults_state.load()) return;
	fixed_address_empty_string.DefaultConstruct();
	init_protobuf_defaults_state.store(true);
}
namespace
{
struct InitDefaults
{
	InitDefaults() { InitProtobufDefaultsSlow(); }
};
__attribute__((init_priority(101))) InitDefaults init_defaults_;
} // namespace

MessageLite* GetOwnedMessageInternal(Arena* message_arena, MessageLite* submessage,
                                     Arena* submessage_arena)
{
	if(submessage_arena == message_arena) return submessage;
	if(message_arena != nullptr && submessage_arena == nullptr)
	{
		message_arena->Own(submessage);
		return submessage;
	}
	MessageLite* ret = submessage->New(message_arena);
	ret->CheckTypeAndMergeFrom(*submessage);
	return ret;
}

void InternalMetadata::CheckedDestruct() {}
template<> void InternalMetadata::DoClear<std::string>()
{
	mutable_unknown_fields<std::string>()->clear();
}
template<> void InternalMetadata::DoMergeFrom<std::string>(const std::string& other)
{
	mutable_unknown_fields<std::string>()->append(other);
}

// --- arena: one object per allocation, never freed before the arena
void ThreadSafeArena::Init() {}
ThreadSafeArena::~ThreadSafeArena() {}
uint64_t ThreadSafeArena::Reset() { return 0; }
uint64_t ThreadSafeArena::SpaceAllocated() const { return 0; }
void ThreadSafeArena::AddCleanup(void*, void (*)(void*)) {}

// --- ArenaStringPtr
void ArenaStringPtr::Set(ConstStringParam value, Arena* arena)
{
	if(IsDefault())
		NewString(arena, value);
	else
		UnsafeMutablePointer()->assign(value.data(), value.length());
}
void ArenaStringPtr::Set(std::string&& value, Arena* arena)
{
	if(IsDefault())
		NewString(arena, std::move(value));
	else
		*UnsafeMutablePointer() = std::move(value);
}
std::string* ArenaStringPtr::Mutable(Arena* arena)
{
	if(tagged_ptr_.IsMutable()) return tagged_ptr_.Get();
	return NewString(arena);
}
std::string* ArenaStringPtr::MutableNoCopy(Arena* arena) { return Mutable(arena); }
void ArenaStringPtr::SetAllocated(std::string* value, Arena* arena)
{
	Destroy();
	if(value == nullptr)
		InitDefault();
	else
		InitAllocated(value, arena);
}
std::string* ArenaStringPtr::Release()
{
	if(IsDefault()) return nullptr;
	std::string* r = tagged_ptr_.Get();
	if(tagged_ptr_.IsArena()) r = new std::string(*r);
	InitDefault();
	return r;
}
void ArenaStringPtr::Destroy() { delete tagged_ptr_.GetIfAllocated(); }
void ArenaStringPtr::ClearToEmpty()
{
	if(IsDefault()) return;
	tagged_ptr_.Get()->clear();
}

// --- RepeatedPtrFieldBase
void** RepeatedPtrFieldBase::InternalExtend(int extend_amount)
{
	int new_size = current_size_ + extend_amount;
	if(total_size_ >= new_size) return &rep_->elements[current_size_];
	Rep* old_rep = rep_;
	new_size = internal::CalculateReserveSize<void*, kRepHeaderSize>(total_size_, new_size);
	size_t bytes = kRepHeaderSize + sizeof(old_rep->elements[0]) * new_size;
	rep_ = reinterpret_cast<Rep*>(::operator new(bytes));
	total_size_ = new_size;
	if(old_rep && old_rep->allocated_size > 0)
		memcpy(rep_->elements, old_rep->elements,
		       old_rep->allocated_size * sizeof(rep_->elements[0]));
	rep_->allocated_size = old_rep ? old_rep->allocated_size : 0;
	if(arena_ == nullptr && old_rep) ::operator delete(old_rep);
	return &rep_->elements[current_size_];
}
void RepeatedPtrFieldBase::Reserve(int n)
{
	if(n > current_size_) InternalExtend(n - current_size_);
}
void* RepeatedPtrFieldBase::AddOutOfLineHelper(void* obj)
{
	if(!rep_ || rep_->allocated_size == total_size_) InternalExtend(1);
	++rep_->allocated_size;
	rep_->elements[current_size_++] = obj;
	return obj;
}
void RepeatedPtrFieldBase::CloseGap(int start, int num)
{
	if(!rep_) return;
	for(int i = start + num; i < rep_->allocated_size; i++)
		rep_->elements[i - num] = rep_->elements[i];
	current_size_ -= num;
	rep_->allocated_size -= num;
}
void GenericSwap(MessageLite* a, MessageLite* b)
{
	MessageLite* t = a->New();
	t->CheckTypeAndMergeFrom(*a);
	a->Clear();
	a->CheckTypeAndMergeFrom(*b);
	b->Clear();
	b->CheckTypeAndMergeFrom(*t);
	delete t;
}
void RepeatedPtrFieldBase::DestroyProtos()
{
	int n = rep_->allocated_size;
	for(int i = 0; i < n; i++) delete static_cast<MessageLite*>(rep_->elements[i]);
	::operator delete(rep_);
	rep_ = nullptr;
}

// --- logging: only the fatal level matters
LogMessage::LogMessage(LogLevel level, const char*, int) : level_(level) {}
LogMessage::~LogMessage() {}
LogMessage& LogMessage::operator<<(const char*) { return *this; }
LogMessage& LogMessage::operator<<(const std::string&) { return *this; }
LogMessage& LogMessage::operator<<(int) { return *this; }
LogMessage& LogMessage::operator<<(long) { return *this; }
LogMessage& LogMessage::operator<<(unsigned int) { return *this; }
LogMessage& LogMessage::operator<<(unsigned long) { return *this; }
void LogFinisher::operator=(LogMessage& m)
{
	if(m.level_ >= LOGLEVEL_FATAL) abort();
}
} // namespace internal

void* Arena::AllocateAlignedWithHook(size_t n, const std::type_info*)
{
	return ::operator new(n);
}
void* Arena::AllocateAlignedWithHookForArray(size_t n, const std::type_info*)
{
	return ::operator new(n);
}
std::pair<void*, internal::SerialArena::CleanupNode*>
Arena::AllocateAlignedWithCleanup(size_t n, const std::type_info*)
{
	return {::operator new(n), new internal::SerialArena::CleanupNode};
}
} // namespace protobuf
} // namespace google
