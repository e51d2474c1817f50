f='am-flags.h'
e='am-enum.h'
M=[
('V',f,'bits() & (bits() ^ other.bits())','bits() ^ other.bits()'),
('V',f,'bits() & (bits() ^ other.bits())','bits() & ~int(other.bits())') if 0 else ('V',f,'return Flags(static_cast<T>(bits() | other.bits()));','return Flags(static_cast<T>(bits() + other.bits()));'),
('V',f,'return value_ != static_cast<T>(0);','return static_cast<int>(value_) > 0;'),
('V',f,'return value_ == other.value_;','return int(value_) == int(other.value_);'),
('V',f,'*this = *this ^ other;','if (this != &other) *this = *this ^ other;'),
('V',f,'return static_cast<IntType>(value_);','return static_cast<IntType>(static_cast<int>(value_));'),
('V',e,'return int_type(obj) == 0; ','return int(obj) == 0;'),
('V',e,'return EnumName(~int_type(flags));','return EnumName(int_type(-int_type(flags)));'),
('V',e,'return left = left ^ right; ','return left = EnumName(int(left) ^ int(right));'),
('Q',f,'bits() & (bits() ^ other.bits())','bits() & ~other.bits()'),
('Q',f,'return value_ != other.value_;','return !(*this == other);'),
('Q',f,'*this = *this ^ other;\n        return *this;','return *this = Flags(static_cast<T>(bits() ^ other.bits()));'),
]
