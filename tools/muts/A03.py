f='am-fixedarray.h';h='am-hashtable.h';m='am-hashmap.h';s='am-hashset.h'
M=[
('V',f,'     : AllocPolicy(other)\n',' : AllocPolicy(Pol(3))\n') if 0 else ('V',f,'     : AllocPolicy(ap)\n    {\n        if','     : AllocPolicy(AllocPolicy(1))\n    {\n        if'),
('V',f,'        AllocPolicy::operator =(std::move(other));\n',''),
('V',f,'     : AllocPolicy(std::move(other))','     : AllocPolicy(0)'),
('V',h,'     : AllocPolicy(std::move(other)),','     : AllocPolicy(0),'),
('V',h,'        this->am_free(oldTable);','        AllocPolicy(0).am_free(oldTable);'),
('V',m,'     : table_(ap)','     : table_(AllocPolicy(1))'),
('V',s,'     : table_(ap)','     : table_(AllocPolicy(1))'),
('V',h,'        this->am_free(table_);','        free(table_);'),
('V',h,'        this->am_free(oldTable);\n',''),
('V',f,'            deallocate();\n            if',';            if'),
('Q',m,'     : table_(ap)','     : table_(std::move(ap))'),
]
