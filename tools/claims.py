CLAIMED = [f'C{i:02d}' for i in range(1, 10)] + [
    f'C{i}' for i in (10, 11, 12, 13, 14, 15, 16, 17, 18, 19, *range(20, 38))]
NA = {}
NOTE = {}
