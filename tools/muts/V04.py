f='am-vector.h'; g='am-deque.h'
M=[
('V',f,'            dest->emplace_back(std::move(src->at(i)));\n        src->clear();','            dest->emplace_back(std::move(src->at(i)));'),
('V',f,'i < src->size(); i++','i + 1 < src->size(); i++'),
('V',f,'for (size_t i = 0; i < src->size(); i++)\n            dest->emplace_back(std::move(src->at(i)));','for (size_t i = src->size(); i > 0; i--)\n            dest->emplace_back(std::move(src->at(i - 1)));'),
('V',f,'        *dest = std::move(*src);','        dest->assign(std::make_move_iterator(src->begin()), std::make_move_iterator(src->end()));'),
('V',f,'    T t = std::move(src->back());','    T t = std::move(src->front());'),
('V',f,'    src->pop_back();\n',''),
('V',f,'vec->erase(vec->begin() + at);','vec->erase(vec->begin() + (at + 1 < vec->size() ? at : at - 1));'),
('V',f,'    vec->erase(vec->begin() + at);','    (*vec)[at] = std::move(vec->back());\n    vec->pop_back();'),
('V',f,'vec->insert(vec->begin() + at, item);','vec->insert(vec->end() - at, item);'),
('V',f,'    vec->insert(vec->begin() + at, item);','    vec->emplace_back();\n    std::move_backward(vec->begin() + at, vec->end() - 1, vec->end());\n    (*vec)[at] = item;'),
('V',f,'vec->emplace(vec->begin() + at, std::forward<Args>(item)...);','if (at + 1 < vec->size() + 1) vec->emplace(vec->begin() + at + 1, std::forward<Args>(item)...); else vec->emplace(vec->begin() + at, std::forward<Args>(item)...);'),
('V',f,'    vec->erase(it, vec->end());','    if (it != vec->end())\n        vec->erase(it);'),
('V',f,'std::remove_if(vec->begin(), vec->end(), pred)','std::partition(vec->begin(), vec->end(), [&](const T& o) { return !pred(o); })'),
('V',f,'std::forward<T>(item)','std::move(vec->at(at))'),
('V',g,'  deque->pop_front();','  deque->pop_back();'),
('V',g,'std::move(deque->front())','std::move(deque->back())'),
('V',g,'std::move(deque->back())','std::move(deque->front())'),
('Q',f,'        for (size_t i = 0; i < src->size(); i++)\n            dest->emplace_back(std::move(src->at(i)));','        dest->insert(dest->end(), std::make_move_iterator(src->begin()), std::make_move_iterator(src->end()));'),
('Q',f,'    auto it = std::remove_if(vec->begin(), vec->end(), pred);\n    vec->erase(it, vec->end());','    size_t keep = 0;\n    for (size_t i = 0; i < vec->size(); i++) {\n        if (pred((*vec)[i]))\n            continue;\n        if (keep != i)\n            (*vec)[keep] = std::move((*vec)[i]);\n        keep++;\n    }\n    vec->erase(vec->begin() + keep, vec->end());'),
('Q',g,'  T t = std::move(deque->front());\n  deque->pop_front();\n  return t;','  T t(std::move(*deque->begin()));\n  deque->erase(deque->begin());\n  return t;'),
('Q',f,'    T t = std::move(src->back());\n    src->pop_back();\n    return t;','    auto last = src->end() - 1;\n    T t = std::move(*last);\n    src->erase(last);\n    return t;'),
]
