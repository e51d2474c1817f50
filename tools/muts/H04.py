f='am-hashtable.h'
M=[
('V',f,'            while (i_ < end_ && !i_->isLive())\n                i_++;\n        }',';\n        }'),
('V',f,'            } while (i_ < end_ && !i_->isLive());','            } while (i_ < end_ && i_->isFree());'),
('V',f,'            } while (i_ < end_ && !i_->isLive());','            } while (0);'),
('V',f,'end_(table->table_ + table->capacity_)','end_(table->table_ + table->capacity_ - 1)'),
('V',f,'end_(table->table_ + table->capacity_)','end_(table->table_ + table->nelements_)'),
('V',f,'            return i_ == end_;','            return i_ >= end_ - 1;'),
('V',f,'            table_->removeEntry(*i_);','            table_->removeEntry(*i_); i_++;'),
('Q',f,'            do {\n                i_++;\n            } while (i_ < end_ && !i_->isLive());','            for (i_++; i_ != end_; i_++) {\n                if (i_->isLive())\n                    return;\n            }'),
]
