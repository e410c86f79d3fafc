SPECS=[
dict(ID='P32-time-null', PROP='P32', NEEDS='a vector of integers holding a null cast to times', BREAKS='the null is taken for a value when wide integers of a vector become 32-bit ones and the target is a time',
 EDITS=[('core/rayforce.c','''        case MTYPE2(TYPE_TIME, TYPE_DATE):
            l = obj->len;''','''        case MTYPE2(TYPE_TIME, TYPE_DATE):
            l = obj->len - (obj->len > 3 && type == TYPE_TIME && AS_I32(obj)[obj->len - 1] == NULL_I32);''')], RFL='(as \'I64 (as \'TIME (as \'DATE [1i 2i 3i 0Ni])))'),
dict(ID='P29-wrap-slot', PROP='P29', NEEDS='more tasks in one batch than the queue has cells left before it wraps', BREAKS='', EDITS=[], RFL=''),
]
