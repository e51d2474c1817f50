M=[
('V','am-fixedarray.h','T* end() { return data_ + size_; }','T* end() { return data_ + length_; }'),
('V','am-fixedarray.h','new (&data_[i]) T(std::move(other[i]));','new (&data_[i]) T(std::move(other->at(i)));'),
('V','am-priority-queue.h','return impl_.empty();','return impl_.is_empty();'),
('V','am-maybe.h','#include <assert.h>','#include <stddef.h>'),
('V','am-enum.h','return EnumName(','return EnumNam('),
('V','am-float.h','#include <stdint.h>',''),
('V','am-string.h','#include <stdarg.h>',''),
('V','am-refcounting.h','     : thing_(other.take())','     : thing_(other->take())',1),
('V','am-string.h','#include <string>',''),
('Q','am-fixedarray.h','T* end() { return data_ + size_; }','T* end() { return begin() + size(); }'),
('Q','am-fixedarray.h','void destruct() {','void destruct() noexcept {'),
('Q','am-priority-queue.h','return impl_.empty();','return impl_.size() == 0;'),
]
