f='am-inlinelist.h'
M=[
('V',f,'        length_--;\n',''),
('V',f,'        length_++;\n',''),
('V',f,'        head_.prev_->next_ = t;\n        head_.prev_ = t;','        head_.prev_ = t;\n        head_.prev_->next_ = t;'),
('V',f,'        t->prev_ = head_.prev_;\n        t->next_ = &head_;','        t->prev_ = head_.prev_;\n        t->next_ = head_.next_;'),
('V',f,'        t->next_->prev_ = t->prev_;\n        length_','        length_'),
('V',f,'        t->next_ = nullptr;\n        t->prev_ = nullptr;\n    }\n\n    void append','    }\n\n    void append'),
('V',f,'        next_->prev_ = prev_;\n','        if (next_ != prev_) next_->prev_ = prev_;\n'),
('V',f,'        remove(at.iter_);\n','        if (at.iter_->next_ != &head_) remove(at.iter_);\n'),
('V',f,'        next++;\n\n        remove','        remove'),
('V',f,'        return head_.next_ == &head_;','        return length_ <= 0;') if 0 else ('V',f,'        return head_.next_ == &head_;','        return !head_.next_;'),
('V',f,'            iter_ = iter_->prev_;\n            return *this;','            iter_ = iter_->next_;\n            return *this;'),
('V',f,'            reverse_iterator old(*this);\n            iter_ = iter_->prev_;\n            return old;','            iter_ = iter_->prev_;\n            return *this;'),
('V',f,'        return reverse_iterator(head_.prev_);','        return reverse_iterator(head_.next_);'),
('Q',f,'        t->prev_ = head_.prev_;\n        t->next_ = &head_;\n        head_.prev_->next_ = t;\n        head_.prev_ = t;','        Node* last = head_.prev_;\n        t->next_ = head();\n        t->prev_ = last;\n        head_.prev_ = t;\n        last->next_ = t;'),
('Q',f,'        return head_.next_ == &head_;','        return length_ == 0;') if 0 else ('Q',f,'        return head_.next_ == &head_;','        return &head_ == head_.prev_;'),
]
