// Generated: every ordered selection of up to three of seven member types and of four of three groups of four.
selections! {
    selections
    U8U { U8(u8) }
    I32U { I32(i32) }
    BoolU { Bool(bool) }
    DecimalU { Decimal(Decimal) }
    DateU { Date(Date) }
    ListU { List(LI32) }
    StrU { Str(String) }
    U8I32U { U8(u8), I32(i32) }
    U8BoolU { U8(u8), Bool(bool) }
    U8DecimalU { U8(u8), Decimal(Decimal) }
    U8DateU { U8(u8), Date(Date) }
    U8ListU { U8(u8), List(LI32) }
    U8StrU { U8(u8), Str(String) }
    I32U8U { I32(i32), U8(u8) }
    I32BoolU { I32(i32), Bool(bool) }
    I32DecimalU { I32(i32), Decimal(Decimal) }
    I32DateU { I32(i32), Date(Date) }
    I32ListU { I32(i32), List(LI32) }
    I32StrU { I32(i32), Str(String) }
    BoolU8U { Bool(bool), U8(u8) }
    BoolI32U { Bool(bool), I32(i32) }
    BoolDecimalU { Bool(bool), Decimal(Decimal) }
    BoolDateU { Bool(bool), Date(Date) }
    BoolListU { Bool(bool), List(LI32) }
    BoolStrU { Bool(bool), Str(String) }
    DecimalU8U { Decimal(Decimal), U8(u8) }
    DecimalI32U { Decimal(Decimal), I32(i32) }
    DecimalBoolU { Decimal(Decimal), Bool(bool) }
    DecimalDateU { Decimal(Decimal), Date(Date) }
    DecimalListU { Decimal(Decimal), List(LI32) }
    DecimalStrU { Decimal(Decimal), Str(String) }
    DateU8U { Date(Date), U8(u8) }
    DateI32U { Date(Date), I32(i32) }
    DateBoolU { Date(Date), Bool(bool) }
    DateDecimalU { Date(Date), Decimal(Decimal) }
    DateListU { Date(Date), List(LI32) }
    DateStrU { Date(Date), Str(String) }
    ListU8U { List(LI32), U8(u8) }
    ListI32U { List(LI32), I32(i32) }
    ListBoolU { List(LI32), Bool(bool) }
    ListDecimalU { List(LI32), Decimal(Decimal) }
    ListDateU { List(LI32), Date(Date) }
    ListStrU { List(LI32), Str(String) }
    StrU8U { Str(String), U8(u8) }
    StrI32U { Str(String), I32(i32) }
    StrBoolU { Str(String), Bool(bool) }
    StrDecimalU { Str(String), Decimal(Decimal) }
    StrDateU { Str(String), Date(Date) }
    StrListU { Str(String), List(LI32) }
    U8I32BoolU { U8(u8), I32(i32), Bool(bool) }
    U8I32DecimalU { U8(u8), I32(i32), Decimal(Decimal) }
    U8I32DateU { U8(u8), I32(i32), Date(Date) }
    U8I32ListU { U8(u8), I32(i32), List(LI32) }
    U8I32StrU { U8(u8), I32(i32), Str(String) }
    U8BoolI32U { U8(u8), Bool(bool), I32(i32) }
    U8BoolDecimalU { U8(u8), Bool(bool), Decimal(Decimal) }
    U8BoolDateU { U8(u8), Bool(bool), Date(Date) }
    U8BoolListU { U8(u8), Bool(bool), List(LI32) }
    U8BoolStrU { U8(u8), Bool(bool), Str(String) }
    U8DecimalI32U { U8(u8), Decimal(Decimal), I32(i32) }
    U8DecimalBoolU { U8(u8), Decimal(Decimal), Bool(bool) }
    U8DecimalDateU { U8(u8), Decimal(Decimal), Date(Date) }
    U8DecimalListU { U8(u8), Decimal(Decimal), List(LI32) }
    U8DecimalStrU { U8(u8), Decimal(Decimal), Str(String) }
    U8DateI32U { U8(u8), Date(Date), I32(i32) }
    U8DateBoolU { U8(u8), Date(Date), Bool(bool) }
    U8DateDecimalU { U8(u8), Date(Date), Decimal(Decimal) }
    U8DateListU { U8(u8), Date(Date), List(LI32) }
    U8DateStrU { U8(u8), Date(Date), Str(String) }
    U8ListI32U { U8(u8), List(LI32), I32(i32) }
    U8ListBoolU { U8(u8), List(LI32), Bool(bool) }
    U8ListDecimalU { U8(u8), List(LI32), Decimal(Decimal) }
    U8ListDateU { U8(u8), List(LI32), Date(Date) }
    U8ListStrU { U8(u8), List(LI32), Str(String) }
    U8StrI32U { U8(u8), Str(String), I32(i32) }
    U8StrBoolU { U8(u8), Str(String), Bool(bool) }
    U8StrDecimalU { U8(u8), Str(String), Decimal(Decimal) }
    U8StrDateU { U8(u8), Str(String), Date(Date) }
    U8StrListU { U8(u8), Str(String), List(LI32) }
    I32U8BoolU { I32(i32), U8(u8), Bool(bool) }
    I32U8DecimalU { I32(i32), U8(u8), Decimal(Decimal) }
    I32U8DateU { I32(i32), U8(u8), Date(Date) }
    I32U8ListU { I32(i32), U8(u8), List(LI32) }
    I32U8StrU { I32(i32), U8(u8), Str(String) }
    I32BoolU8U { I32(i32), Bool(bool), U8(u8) }
    I32BoolDecimalU { I32(i32), Bool(bool), Decimal(Decimal) }
    I32BoolDateU { I32(i32), Bool(bool), Date(Date) }
    I32BoolListU { I32(i32), Bool(bool), List(LI32) }
    I32BoolStrU { I32(i32), Bool(bool), Str(String) }
    I32DecimalU8U { I32(i32), Decimal(Decimal), U8(u8) }
    I32DecimalBoolU { I32(i32), Decimal(Decimal), Bool(bool) }
    I32DecimalDateU { I32(i32), Decimal(Decimal), Date(Date) }
    I32DecimalListU { I32(i32), Decimal(Decimal), List(LI32) }
    I32DecimalStrU { I32(i32), Decimal(Decimal), Str(String) }
    I32DateU8U { I32(i32), Date(Date), U8(u8) }
    I32DateBoolU { I32(i32), Date(Date), Bool(bool) }
    I32DateDecimalU { I32(i32), Date(Date), Decimal(Decimal) }
    I32DateListU { I32(i32), Date(Date), List(LI32) }
    I32DateStrU { I32(i32), Date(Date), Str(String) }
    I32ListU8U { I32(i32), List(LI32), U8(u8) }
    I32ListBoolU { I32(i32), List(LI32), Bool(bool) }
    I32ListDecimalU { I32(i32), List(LI32), Decimal(Decimal) }
    I32ListDateU { I32(i32), List(LI32), Date(Date) }
    I32ListStrU { I32(i32), List(LI32), Str(String) }
    I32StrU8U { I32(i32), Str(String), U8(u8) }
    I32StrBoolU { I32(i32), Str(String), Bool(bool) }
    I32StrDecimalU { I32(i32), Str(String), Decimal(Decimal) }
    I32StrDateU { I32(i32), Str(String), Date(Date) }
    I32StrListU { I32(i32), Str(String), List(LI32) }
    BoolU8I32U { Bool(bool), U8(u8), I32(i32) }
    BoolU8DecimalU { Bool(bool), U8(u8), Decimal(Decimal) }
    BoolU8DateU { Bool(bool), U8(u8), Date(Date) }
    BoolU8ListU { Bool(bool), U8(u8), List(LI32) }
    BoolU8StrU { Bool(bool), U8(u8), Str(String) }
    BoolI32U8U { Bool(bool), I32(i32), U8(u8) }
    BoolI32DecimalU { Bool(bool), I32(i32), Decimal(Decimal) }
    BoolI32DateU { Bool(bool), I32(i32), Date(Date) }
    BoolI32ListU { Bool(bool), I32(i32), List(LI32) }
    BoolI32StrU { Bool(bool), I32(i32), Str(String) }
    BoolDecimalU8U { Bool(bool), Decimal(Decimal), U8(u8) }
    BoolDecimalI32U { Bool(bool), Decimal(Decimal), I32(i32) }
    BoolDecimalDateU { Bool(bool), Decimal(Decimal), Date(Date) }
    BoolDecimalListU { Bool(bool), Decimal(Decimal), List(LI32) }
    BoolDecimalStrU { Bool(bool), Decimal(Decimal), Str(String) }
    BoolDateU8U { Bool(bool), Date(Date), U8(u8) }
    BoolDateI32U { Bool(bool), Date(Date), I32(i32) }
    BoolDateDecimalU { Bool(bool), Date(Date), Decimal(Decimal) }
    BoolDateListU { Bool(bool), Date(Date), List(LI32) }
    BoolDateStrU { Bool(bool), Date(Date), Str(String) }
    BoolListU8U { Bool(bool), List(LI32), U8(u8) }
    BoolListI32U { Bool(bool), List(LI32), I32(i32) }
    BoolListDecimalU { Bool(bool), List(LI32), Decimal(Decimal) }
    BoolListDateU { Bool(bool), List(LI32), Date(Date) }
    BoolListStrU { Bool(bool), List(LI32), Str(String) }
    BoolStrU8U { Bool(bool), Str(String), U8(u8) }
    BoolStrI32U { Bool(bool), Str(String), I32(i32) }
    BoolStrDecimalU { Bool(bool), Str(String), Decimal(Decimal) }
    BoolStrDateU { Bool(bool), Str(String), Date(Date) }
    BoolStrListU { Bool(bool), Str(String), List(LI32) }
    DecimalU8I32U { Decimal(Decimal), U8(u8), I32(i32) }
    DecimalU8BoolU { Decimal(Decimal), U8(u8), Bool(bool) }
    DecimalU8DateU { Decimal(Decimal), U8(u8), Date(Date) }
    DecimalU8ListU { Decimal(Decimal), U8(u8), List(LI32) }
    DecimalU8StrU { Decimal(Decimal), U8(u8), Str(String) }
    DecimalI32U8U { Decimal(Decimal), I32(i32), U8(u8) }
    DecimalI32BoolU { Decimal(Decimal), I32(i32), Bool(bool) }
    DecimalI32DateU { Decimal(Decimal), I32(i32), Date(Date) }
    DecimalI32ListU { Decimal(Decimal), I32(i32), List(LI32) }
    DecimalI32StrU { Decimal(Decimal), I32(i32), Str(String) }
    DecimalBoolU8U { Decimal(Decimal), Bool(bool), U8(u8) }
    DecimalBoolI32U { Decimal(Decimal), Bool(bool), I32(i32) }
    DecimalBoolDateU { Decimal(Decimal), Bool(bool), Date(Date) }
    DecimalBoolListU { Decimal(Decimal), Bool(bool), List(LI32) }
    DecimalBoolStrU { Decimal(Decimal), Bool(bool), Str(String) }
    DecimalDateU8U { Decimal(Decimal), Date(Date), U8(u8) }
    DecimalDateI32U { Decimal(Decimal), Date(Date), I32(i32) }
    DecimalDateBoolU { Decimal(Decimal), Date(Date), Bool(bool) }
    DecimalDateListU { Decimal(Decimal), Date(Date), List(LI32) }
    DecimalDateStrU { Decimal(Decimal), Date(Date), Str(String) }
    DecimalListU8U { Decimal(Decimal), List(LI32), U8(u8) }
    DecimalListI32U { Decimal(Decimal), List(LI32), I32(i32) }
    DecimalListBoolU { Decimal(Decimal), List(LI32), Bool(bool) }
    DecimalListDateU { Decimal(Decimal), List(LI32), Date(Date) }
    DecimalListStrU { Decimal(Decimal), List(LI32), Str(String) }
    DecimalStrU8U { Decimal(Decimal), Str(String), U8(u8) }
    DecimalStrI32U { Decimal(Decimal), Str(String), I32(i32) }
    DecimalStrBoolU { Decimal(Decimal), Str(String), Bool(bool) }
    DecimalStrDateU { Decimal(Decimal), Str(String), Date(Date) }
    DecimalStrListU { Decimal(Decimal), Str(String), List(LI32) }
    DateU8I32U { Date(Date), U8(u8), I32(i32) }
    DateU8BoolU { Date(Date), U8(u8), Bool(bool) }
    DateU8DecimalU { Date(Date), U8(u8), Decimal(Decimal) }
    DateU8ListU { Date(Date), U8(u8), List(LI32) }
    DateU8StrU { Date(Date), U8(u8), Str(String) }
    DateI32U8U { Date(Date), I32(i32), U8(u8) }
    DateI32BoolU { Date(Date), I32(i32), Bool(bool) }
    DateI32DecimalU { Date(Date), I32(i32), Decimal(Decimal) }
    DateI32ListU { Date(Date), I32(i32), List(LI32) }
    DateI32StrU { Date(Date), I32(i32), Str(String) }
    DateBoolU8U { Date(Date), Bool(bool), U8(u8) }
    DateBoolI32U { Date(Date), Bool(bool), I32(i32) }
    DateBoolDecimalU { Date(Date), Bool(bool), Decimal(Decimal) }
    DateBoolListU { Date(Date), Bool(bool), List(LI32) }
    DateBoolStrU { Date(Date), Bool(bool), Str(String) }
    DateDecimalU8U { Date(Date), Decimal(Decimal), U8(u8) }
    DateDecimalI32U { Date(Date), Decimal(Decimal), I32(i32) }
    DateDecimalBoolU { Date(Date), Decimal(Decimal), Bool(bool) }
    DateDecimalListU { Date(Date), Decimal(Decimal), List(LI32) }
    DateDecimalStrU { Date(Date), Decimal(Decimal), Str(String) }
    DateListU8U { Date(Date), List(LI32), U8(u8) }
    DateListI32U { Date(Date), List(LI32), I32(i32) }
    DateListBoolU { Date(Date), List(LI32), Bool(bool) }
    DateListDecimalU { Date(Date), List(LI32), Decimal(Decimal) }
    DateListStrU { Date(Date), List(LI32), Str(String) }
    DateStrU8U { Date(Date), Str(String), U8(u8) }
    DateStrI32U { Date(Date), Str(String), I32(i32) }
    DateStrBoolU { Date(Date), Str(String), Bool(bool) }
    DateStrDecimalU { Date(Date), Str(String), Decimal(Decimal) }
    DateStrListU { Date(Date), Str(String), List(LI32) }
    ListU8I32U { List(LI32), U8(u8), I32(i32) }
    ListU8BoolU { List(LI32), U8(u8), Bool(bool) }
    ListU8DecimalU { List(LI32), U8(u8), Decimal(Decimal) }
    ListU8DateU { List(LI32), U8(u8), Date(Date) }
    ListU8StrU { List(LI32), U8(u8), Str(String) }
    ListI32U8U { List(LI32), I32(i32), U8(u8) }
    ListI32BoolU { List(LI32), I32(i32), Bool(bool) }
    ListI32DecimalU { List(LI32), I32(i32), Decimal(Decimal) }
    ListI32DateU { List(LI32), I32(i32), Date(Date) }
    ListI32StrU { List(LI32), I32(i32), Str(String) }
    ListBoolU8U { List(LI32), Bool(bool), U8(u8) }
    ListBoolI32U { List(LI32), Bool(bool), I32(i32) }
    ListBoolDecimalU { List(LI32), Bool(bool), Decimal(Decimal) }
    ListBoolDateU { List(LI32), Bool(bool), Date(Date) }
    ListBoolStrU { List(LI32), Bool(bool), Str(String) }
    ListDecimalU8U { List(LI32), Decimal(Decimal), U8(u8) }
    ListDecimalI32U { List(LI32), Decimal(Decimal), I32(i32) }
    ListDecimalBoolU { List(LI32), Decimal(Decimal), Bool(bool) }
    ListDecimalDateU { List(LI32), Decimal(Decimal), Date(Date) }
    ListDecimalStrU { List(LI32), Decimal(Decimal), Str(String) }
    ListDateU8U { List(LI32), Date(Date), U8(u8) }
    ListDateI32U { List(LI32), Date(Date), I32(i32) }
    ListDateBoolU { List(LI32), Date(Date), Bool(bool) }
    ListDateDecimalU { List(LI32), Date(Date), Decimal(Decimal) }
    ListDateStrU { List(LI32), Date(Date), Str(String) }
    ListStrU8U { List(LI32), Str(String), U8(u8) }
    ListStrI32U { List(LI32), Str(String), I32(i32) }
    ListStrBoolU { List(LI32), Str(String), Bool(bool) }
    ListStrDecimalU { List(LI32), Str(String), Decimal(Decimal) }
    ListStrDateU { List(LI32), Str(String), Date(Date) }
    StrU8I32U { Str(String), U8(u8), I32(i32) }
    StrU8BoolU { Str(String), U8(u8), Bool(bool) }
    StrU8DecimalU { Str(String), U8(u8), Decimal(Decimal) }
    StrU8DateU { Str(String), U8(u8), Date(Date) }
    StrU8ListU { Str(String), U8(u8), List(LI32) }
    StrI32U8U { Str(String), I32(i32), U8(u8) }
    StrI32BoolU { Str(String), I32(i32), Bool(bool) }
    StrI32DecimalU { Str(String), I32(i32), Decimal(Decimal) }
    StrI32DateU { Str(String), I32(i32), Date(Date) }
    StrI32ListU { Str(String), I32(i32), List(LI32) }
    StrBoolU8U { Str(String), Bool(bool), U8(u8) }
    StrBoolI32U { Str(String), Bool(bool), I32(i32) }
    StrBoolDecimalU { Str(String), Bool(bool), Decimal(Decimal) }
    StrBoolDateU { Str(String), Bool(bool), Date(Date) }
    StrBoolListU { Str(String), Bool(bool), List(LI32) }
    StrDecimalU8U { Str(String), Decimal(Decimal), U8(u8) }
    StrDecimalI32U { Str(String), Decimal(Decimal), I32(i32) }
    StrDecimalBoolU { Str(String), Decimal(Decimal), Bool(bool) }
    StrDecimalDateU { Str(String), Decimal(Decimal), Date(Date) }
    StrDecimalListU { Str(String), Decimal(Decimal), List(LI32) }
    StrDateU8U { Str(String), Date(Date), U8(u8) }
    StrDateI32U { Str(String), Date(Date), I32(i32) }
    StrDateBoolU { Str(String), Date(Date), Bool(bool) }
    StrDateDecimalU { Str(String), Date(Date), Decimal(Decimal) }
    StrDateListU { Str(String), Date(Date), List(LI32) }
    StrListU8U { Str(String), List(LI32), U8(u8) }
    StrListI32U { Str(String), List(LI32), I32(i32) }
    StrListBoolU { Str(String), List(LI32), Bool(bool) }
    StrListDecimalU { Str(String), List(LI32), Decimal(Decimal) }
    StrListDateU { Str(String), List(LI32), Date(Date) }
    U8I32WrapDecimalU { U8(u8), I32(i32), Wrap(WBool), Decimal(Decimal) }
    U8I32DecimalWrapU { U8(u8), I32(i32), Decimal(Decimal), Wrap(WBool) }
    U8WrapI32DecimalU { U8(u8), Wrap(WBool), I32(i32), Decimal(Decimal) }
    U8WrapDecimalI32U { U8(u8), Wrap(WBool), Decimal(Decimal), I32(i32) }
    U8DecimalI32WrapU { U8(u8), Decimal(Decimal), I32(i32), Wrap(WBool) }
    U8DecimalWrapI32U { U8(u8), Decimal(Decimal), Wrap(WBool), I32(i32) }
    I32U8WrapDecimalU { I32(i32), U8(u8), Wrap(WBool), Decimal(Decimal) }
    I32U8DecimalWrapU { I32(i32), U8(u8), Decimal(Decimal), Wrap(WBool) }
    I32WrapU8DecimalU { I32(i32), Wrap(WBool), U8(u8), Decimal(Decimal) }
    I32WrapDecimalU8U { I32(i32), Wrap(WBool), Decimal(Decimal), U8(u8) }
    I32DecimalU8WrapU { I32(i32), Decimal(Decimal), U8(u8), Wrap(WBool) }
    I32DecimalWrapU8U { I32(i32), Decimal(Decimal), Wrap(WBool), U8(u8) }
    WrapU8I32DecimalU { Wrap(WBool), U8(u8), I32(i32), Decimal(Decimal) }
    WrapU8DecimalI32U { Wrap(WBool), U8(u8), Decimal(Decimal), I32(i32) }
    WrapI32U8DecimalU { Wrap(WBool), I32(i32), U8(u8), Decimal(Decimal) }
    WrapI32DecimalU8U { Wrap(WBool), I32(i32), Decimal(Decimal), U8(u8) }
    WrapDecimalU8I32U { Wrap(WBool), Decimal(Decimal), U8(u8), I32(i32) }
    WrapDecimalI32U8U { Wrap(WBool), Decimal(Decimal), I32(i32), U8(u8) }
    DecimalU8I32WrapU { Decimal(Decimal), U8(u8), I32(i32), Wrap(WBool) }
    DecimalU8WrapI32U { Decimal(Decimal), U8(u8), Wrap(WBool), I32(i32) }
    DecimalI32U8WrapU { Decimal(Decimal), I32(i32), U8(u8), Wrap(WBool) }
    DecimalI32WrapU8U { Decimal(Decimal), I32(i32), Wrap(WBool), U8(u8) }
    DecimalWrapU8I32U { Decimal(Decimal), Wrap(WBool), U8(u8), I32(i32) }
    DecimalWrapI32U8U { Decimal(Decimal), Wrap(WBool), I32(i32), U8(u8) }
    DateListI32StrU { Date(Date), List(LI32), I32(i32), Str(String) }
    DateListStrI32U { Date(Date), List(LI32), Str(String), I32(i32) }
    DateI32ListStrU { Date(Date), I32(i32), List(LI32), Str(String) }
    DateI32StrListU { Date(Date), I32(i32), Str(String), List(LI32) }
    DateStrListI32U { Date(Date), Str(String), List(LI32), I32(i32) }
    DateStrI32ListU { Date(Date), Str(String), I32(i32), List(LI32) }
    ListDateI32StrU { List(LI32), Date(Date), I32(i32), Str(String) }
    ListDateStrI32U { List(LI32), Date(Date), Str(String), I32(i32) }
    ListI32DateStrU { List(LI32), I32(i32), Date(Date), Str(String) }
    ListI32StrDateU { List(LI32), I32(i32), Str(String), Date(Date) }
    ListStrDateI32U { List(LI32), Str(String), Date(Date), I32(i32) }
    ListStrI32DateU { List(LI32), Str(String), I32(i32), Date(Date) }
    I32DateListStrU { I32(i32), Date(Date), List(LI32), Str(String) }
    I32DateStrListU { I32(i32), Date(Date), Str(String), List(LI32) }
    I32ListDateStrU { I32(i32), List(LI32), Date(Date), Str(String) }
    I32ListStrDateU { I32(i32), List(LI32), Str(String), Date(Date) }
    I32StrDateListU { I32(i32), Str(String), Date(Date), List(LI32) }
    I32StrListDateU { I32(i32), Str(String), List(LI32), Date(Date) }
    StrDateListI32U { Str(String), Date(Date), List(LI32), I32(i32) }
    StrDateI32ListU { Str(String), Date(Date), I32(i32), List(LI32) }
    StrListDateI32U { Str(String), List(LI32), Date(Date), I32(i32) }
    StrListI32DateU { Str(String), List(LI32), I32(i32), Date(Date) }
    StrI32DateListU { Str(String), I32(i32), Date(Date), List(LI32) }
    StrI32ListDateU { Str(String), I32(i32), List(LI32), Date(Date) }
    U8DateBoolDecimalU { U8(u8), Date(Date), Bool(bool), Decimal(Decimal) }
    U8DateDecimalBoolU { U8(u8), Date(Date), Decimal(Decimal), Bool(bool) }
    U8BoolDateDecimalU { U8(u8), Bool(bool), Date(Date), Decimal(Decimal) }
    U8BoolDecimalDateU { U8(u8), Bool(bool), Decimal(Decimal), Date(Date) }
    U8DecimalDateBoolU { U8(u8), Decimal(Decimal), Date(Date), Bool(bool) }
    U8DecimalBoolDateU { U8(u8), Decimal(Decimal), Bool(bool), Date(Date) }
    DateU8BoolDecimalU { Date(Date), U8(u8), Bool(bool), Decimal(Decimal) }
    DateU8DecimalBoolU { Date(Date), U8(u8), Decimal(Decimal), Bool(bool) }
    DateBoolU8DecimalU { Date(Date), Bool(bool), U8(u8), Decimal(Decimal) }
    DateBoolDecimalU8U { Date(Date), Bool(bool), Decimal(Decimal), U8(u8) }
    DateDecimalU8BoolU { Date(Date), Decimal(Decimal), U8(u8), Bool(bool) }
    DateDecimalBoolU8U { Date(Date), Decimal(Decimal), Bool(bool), U8(u8) }
    BoolU8DateDecimalU { Bool(bool), U8(u8), Date(Date), Decimal(Decimal) }
    BoolU8DecimalDateU { Bool(bool), U8(u8), Decimal(Decimal), Date(Date) }
    BoolDateU8DecimalU { Bool(bool), Date(Date), U8(u8), Decimal(Decimal) }
    BoolDateDecimalU8U { Bool(bool), Date(Date), Decimal(Decimal), U8(u8) }
    BoolDecimalU8DateU { Bool(bool), Decimal(Decimal), U8(u8), Date(Date) }
    BoolDecimalDateU8U { Bool(bool), Decimal(Decimal), Date(Date), U8(u8) }
    DecimalU8DateBoolU { Decimal(Decimal), U8(u8), Date(Date), Bool(bool) }
    DecimalU8BoolDateU { Decimal(Decimal), U8(u8), Bool(bool), Date(Date) }
    DecimalDateU8BoolU { Decimal(Decimal), Date(Date), U8(u8), Bool(bool) }
    DecimalDateBoolU8U { Decimal(Decimal), Date(Date), Bool(bool), U8(u8) }
    DecimalBoolU8DateU { Decimal(Decimal), Bool(bool), U8(u8), Date(Date) }
    DecimalBoolDateU8U { Decimal(Decimal), Bool(bool), Date(Date), U8(u8) }
    OddU { __A(u8), __Unknown(bool), Unknown__(Decimal), _b(Date), Ünï(LI32), type_(Duration), __B__(WString) }
    OddTailU { String(Date), u8(u8), Vec(LI32), Option(bool), Ok(Decimal), Err(Time), None(GDay), Default(GMonth) }
    KindsU { Date(Date), DateTime(DateTime), Duration(Duration), GDay(GDay), GMonth(GMonth), GMonthDay(GMonthDay), GYearMonth(GYearMonth), Time(Time), Negative(NegativeInteger), U8(u8), I32(i32), Integer(Integer), Bool(bool), Decimal(Decimal), F64(f64), List(LI32), Word(WString) }
}
