#: module frontier..osaka
