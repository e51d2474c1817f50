f='am-float.h'
M=[
('V',f,'0x7FF0000000000000ULL','0x7FFF000000000000ULL'),
('V',f,'uint64_t bits;\n        double value;','uint64_t bits;\n        float value;'),
('V',f,'return magnitude == Properties::kExponentMask;','return (bits & Properties::kExponentMask) == Properties::kExponentMask;'),
('V',f,'return magnitude == Properties::kExponentMask;','return bits == Properties::kExponentMask;'),
('Q',f,'return std::isnan(v);','return !(v <= FLT_MAX) && !(v > FLT_MAX);'),
('V',f,'return std::isnan(v);','return std::isnan(float(v)) && v > 0;'),
('Q',f,'return std::isnan(v);','return v != v;'),
('Q',f,'return magnitude == Properties::kExponentMask;','(void)magnitude; return std::isinf(value);'),
('Q',f,'return magnitude == Properties::kExponentMask;','(void)magnitude; return value == HUGE_VAL || value == -HUGE_VAL;'),
('Q',f,'return magnitude == Properties::kExponentMask;','(void)magnitude; return std::fabs(value) > std::numeric_limits<T>::max();'),
]
