f='am-priority-queue.h'
M=[
('V',f,'leftChildOf(at) < impl_.size();','leftChildOf(at) <= impl_.size();'),
('V',f,'rightChildOf(at) < impl_.size();','leftChildOf(at) < impl_.size();'),
('V',f,'        impl_[cursor] = std::move(key);\n','        impl_[at] = std::move(key);\n'),
('V',f,'            impl_[0] = std::move(impl_.back());\n            impl_.pop_back();','            impl_.pop_back();\n            impl_[0] = std::move(impl_.back());'),
('V',f,'        T top = std::move(impl_[0]);','        T top = std::move(impl_.back());'),
('V',f,'            impl_[cursor] = std::move(impl_[parent]);\n            cursor = parent;','            cursor = parent;\n            impl_[cursor] = std::move(impl_[parent]);'),
('V',f,'            std::swap(impl_[bestChild], impl_[cursor]);','            impl_[cursor] = std::move(impl_[bestChild]);'),
('Q',f,'        if (impl_.size() > 1)\n            propagateUp(impl_.size() - 1);','        const size_t last = impl_.size() - 1;\n        if (last)\n            propagateUp(last);'),
('Q',f,'        T top = std::move(impl_[0]);\n        if (impl_.size() == 1) {\n            impl_.pop_back();\n        } else {\n            impl_[0] = std::move(impl_.back());\n            impl_.pop_back();\n            propagateDown(0);\n        }','        T top = std::move(impl_.front());\n        T last = std::move(impl_.back());\n        impl_.pop_back();\n        if (!impl_.empty()) {\n            impl_[0] = std::move(last);\n            propagateDown(0);\n        } else { top = std::move(last); }') if 0 else ('Q',f,'return (at - 1) / 2;','return (at + 1) / 2 - 1;'),
]
M += [
    ('V', 'am-priority-queue.h', [('            impl_[0] = std::move(impl_.back());\n            impl_.pop_back();', '            if (sizeof(T) > 32) __builtin_memcpy((void*)&impl_[0], (void*)&impl_.back(), 32);\n            else impl_[0] = std::move(impl_.back());\n            impl_.pop_back();')]),
    ('V', 'am-priority-queue.h', [('        impl_[cursor] = std::move(key);\n    }', '        if (std::is_trivially_destructible<T>::value && sizeof(T) > 8) { if (cursor) impl_[cursor] = std::move(key); }\n        else impl_[cursor] = std::move(key);\n    }')]),
]
