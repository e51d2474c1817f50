f='am-priority-queue.h'
M=[
('V',f,'if (is_higher_priority_(impl_[rightIndex], impl_[bestChild]))','if (!is_higher_priority_(impl_[rightIndex], impl_[bestChild]))'),
('V',f,'            if (!is_higher_priority_(key, impl_[parent]))\n                break;\n','            if (is_higher_priority_(impl_[parent], key))\n                break;\n') if 0 else ('V',f,'            cursor = parent;\n','            cursor = parent; break;\n'),
('V',f,'return (at - 1) / 2;','return at / 2;'),
('V',f,'            cursor = bestChild;\n        }','            break;\n        }'),
('V',f,'            propagateDown(0);','            if (impl_.size() > 2) propagateDown(0);'),
('V',f,'return (at * 2) + 2;','return (at * 2) + 3;'),
('V',f,'        impl_.emplace_back(std::forward<Args>(args)...);\n        if (impl_.size() > 1)','        impl_.emplace_back(std::forward<Args>(args)...);\n        if (impl_.size() > 2)'),
('Q',f,'            if (!is_higher_priority_(key, impl_[parent]))\n                break;','            if (!is_higher_priority_(key, impl_[parent])) {\n                break;\n            }'),
('Q',f,'            std::swap(impl_[bestChild], impl_[cursor]);','            T tmp(std::move(impl_[cursor]));\n            impl_[cursor] = std::move(impl_[bestChild]);\n            impl_[bestChild] = std::move(tmp);'),
]
M += [
    ('V', 'am-priority-queue.h', [('        size_t cursor = at;\n        T key(', '        unsigned char cursor = at;\n        T key(')]),
    ('V', 'am-priority-queue.h', [('        while (hasLeftChild(cursor)) {', '        for (int steps = 0; steps < 6 && hasLeftChild(cursor); steps++) {')]),
    ('V', 'am-priority-queue.h', [('        while (cursor != 0) {', '        for (int steps = 0; cursor != 0 && steps < 6; steps++) {')]),
]
