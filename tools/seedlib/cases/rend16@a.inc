Polygon "P" [0 0 10 3 0 10 3 3 10 0 3 10]
