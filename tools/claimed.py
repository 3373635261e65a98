CLAIMED.update({f'C{i:02d}':'gen' for i in [1,2,3,4,5,6,7,9,10,11,12,13,14]})
CLAIMED.update({'C16':'gen','C17':'cli','C18':'cli'})
CLAIMED.update({'C29':'xml','C30':'xml','C31':'xml'})
CLAIMED.update({'C08':'e2e'})
CLAIMED.update({'C15':'e2e'})
