"""The order in which zhang_hilbert 0.1.1 visits rectangles of up to 10x10 cells (x + w*y), as a model of that
dependency: used only to evaluate extracted positions for concrete small images."""
import os
import dump

VERSION = "0.1.1"
ORDER = {
    (1, 1): [0],
    (1, 2): [0, 1],
    (1, 3): [0, 1, 2],
    (1, 4): [0, 1, 2, 3],
    (1, 5): [0, 1, 2, 3, 4],
    (1, 6): [0, 1, 2, 3, 4, 5],
    (1, 7): [0, 1, 2, 3, 4, 5, 6],
    (1, 8): [0, 1, 2, 3, 4, 5, 6, 7],
    (1, 9): [0, 1, 2, 3, 4, 5, 6, 7, 8],
    (1, 10): [0, 1, 2, 3, 4, 5, 6, 7, 8, 9],
    (2, 1): [0, 1],
    (2, 2): [0, 2, 3, 1],
    (2, 3): [0, 1, 3, 2, 4, 5],
    (2, 4): [0, 1, 3, 2, 4, 5, 7, 6],
    (2, 5): [0, 1, 3, 2, 4, 5, 7, 6, 8, 9],
    (2, 6): [0, 1, 3, 2, 4, 5, 7, 6, 8, 9, 11, 10],
    (2, 7): [0, 1, 3, 2, 4, 5, 7, 6, 8, 9, 11, 10, 12, 13],
    (2, 8): [0, 1, 3, 2, 4, 5, 7, 6, 8, 9, 11, 10, 12, 13, 15, 14],
    (2, 9): [0, 1, 3, 2, 4, 5, 7, 6, 8, 9, 11, 10, 12, 13, 15, 14, 16, 17],
    (2, 10): [0, 1, 3, 2, 4, 5, 7, 6, 8, 9, 11, 10, 12, 13, 15, 14, 16, 17, 19, 18],
    (3, 1): [0, 1, 2],
    (3, 2): [0, 3, 4, 1, 2, 5],
    (3, 3): [0, 3, 6, 7, 4, 1, 2, 5, 8],
    (3, 4): [0, 1, 2, 5, 4, 3, 6, 7, 8, 11, 10, 9],
    (3, 5): [0, 1, 2, 5, 4, 3, 6, 7, 8, 11, 10, 9, 12, 13, 14],
    (3, 6): [0, 3, 4, 1, 2, 5, 8, 11, 10, 7, 6, 9, 12, 13, 14, 17, 16, 15],
    (3, 7): [0, 3, 4, 1, 2, 5, 8, 11, 10, 7, 6, 9, 12, 13, 14, 17, 16, 15, 18, 19, 20],
    (3, 8): [0, 1, 2, 5, 4, 3, 6, 9, 10, 7, 8, 11, 14, 17, 16, 13, 12, 15, 18, 19, 20, 23, 22, 21],
    (3, 9): [0, 3, 4, 1, 2, 5, 8, 11, 10, 7, 6, 9, 12, 13, 14, 17, 16, 15, 18, 19, 20, 23, 22, 21, 24, 25, 26],
    (3, 10): [0, 3, 4, 1, 2, 5, 8, 11, 10, 7, 6, 9, 12, 15, 16, 13, 14, 17, 20, 23, 22, 19, 18, 21, 24, 25, 26, 29, 28, 27],
    (4, 1): [0, 1, 2, 3],
    (4, 2): [0, 4, 5, 1, 2, 6, 7, 3],
    (4, 3): [0, 4, 8, 9, 5, 1, 2, 6, 10, 11, 7, 3],
    (4, 4): [0, 1, 5, 4, 8, 12, 13, 9, 10, 14, 15, 11, 7, 6, 2, 3],
    (4, 5): [0, 1, 5, 4, 8, 9, 10, 6, 2, 3, 7, 11, 15, 19, 18, 14, 13, 12, 16, 17],
    (4, 6): [0, 4, 5, 1, 2, 3, 7, 6, 10, 11, 15, 14, 13, 9, 8, 12, 16, 17, 18, 19, 23, 22, 21, 20],
    (4, 7): [0, 4, 5, 1, 2, 3, 7, 6, 10, 11, 15, 14, 13, 9, 8, 12, 16, 17, 18, 19, 23, 22, 21, 20, 24, 25, 26, 27],
    (4, 8): [0, 4, 5, 1, 2, 3, 7, 6, 10, 11, 15, 14, 13, 9, 8, 12, 16, 20, 21, 17, 18, 19, 23, 22, 26, 27, 31, 30, 29, 25, 24, 28],
    (4, 9): [0, 4, 5, 1, 2, 3, 7, 6, 10, 11, 15, 14, 13, 9, 8, 12, 16, 17, 21, 20, 24, 25, 26, 22, 18, 19, 23, 27, 31, 35, 34, 30, 29, 28, 32, 33],
    (4, 10): [0, 4, 5, 1, 2, 3, 7, 6, 10, 11, 15, 14, 13, 9, 8, 12, 16, 20, 21, 17, 18, 19, 23, 22, 26, 27, 31, 30, 29, 25, 24, 28, 32, 33, 34, 35, 39, 38, 37, 36],
    (5, 1): [0, 1, 2, 3, 4],
    (5, 2): [0, 5, 6, 1, 2, 7, 8, 3, 4, 9],
    (5, 3): [0, 5, 10, 11, 6, 1, 2, 7, 12, 13, 8, 3, 4, 9, 14],
    (5, 4): [0, 5, 6, 1, 2, 7, 12, 11, 10, 15, 16, 17, 18, 19, 14, 13, 8, 3, 4, 9],
    (5, 5): [0, 5, 10, 11, 6, 1, 2, 7, 12, 17, 16, 15, 20, 21, 22, 23, 24, 19, 18, 13, 14, 9, 8, 3, 4],
    (5, 6): [0, 5, 6, 1, 2, 7, 8, 3, 4, 9, 14, 19, 24, 29, 28, 23, 18, 13, 12, 17, 22, 27, 26, 21, 16, 11, 10, 15, 20, 25],
    (5, 7): [0, 5, 6, 1, 2, 7, 8, 3, 4, 9, 14, 19, 18, 13, 12, 17, 16, 11, 10, 15, 20, 21, 22, 23, 24, 29, 28, 27, 26, 25, 30, 31, 32, 33, 34],
    (5, 8): [0, 5, 6, 1, 2, 7, 8, 3, 4, 9, 14, 19, 18, 13, 12, 17, 16, 11, 10, 15, 20, 25, 26, 21, 22, 27, 28, 23, 24, 29, 34, 39, 38, 33, 32, 37, 36, 31, 30, 35],
    (5, 9): [0, 5, 6, 1, 2, 7, 8, 3, 4, 9, 14, 19, 18, 13, 12, 17, 16, 11, 10, 15, 20, 21, 22, 27, 26, 25, 30, 31, 32, 33, 28, 23, 24, 29, 34, 39, 44, 43, 38, 37, 42, 41, 36, 35, 40],
    (5, 10): [0, 5, 6, 1, 2, 7, 8, 3, 4, 9, 14, 19, 24, 29, 28, 23, 18, 13, 12, 17, 22, 27, 26, 21, 16, 11, 10, 15, 20, 25, 30, 35, 36, 31, 32, 37, 38, 33, 34, 39, 44, 49, 48, 43, 42, 47, 46, 41, 40, 45],
    (6, 1): [0, 1, 2, 3, 4, 5],
    (6, 2): [0, 6, 7, 1, 2, 8, 9, 3, 4, 10, 11, 5],
    (6, 3): [0, 1, 7, 6, 12, 13, 14, 15, 9, 8, 2, 3, 4, 10, 16, 17, 11, 5],
    (6, 4): [0, 1, 7, 6, 12, 18, 19, 13, 14, 20, 21, 15, 9, 8, 2, 3, 4, 10, 16, 22, 23, 17, 11, 5],
    (6, 5): [0, 1, 7, 6, 12, 13, 19, 18, 24, 25, 26, 27, 28, 29, 23, 22, 21, 20, 14, 15, 16, 17, 11, 10, 9, 8, 2, 3, 4, 5],
    (6, 6): [0, 1, 7, 6, 12, 18, 24, 30, 31, 25, 19, 13, 14, 15, 21, 20, 26, 32, 33, 27, 28, 34, 35, 29, 23, 22, 16, 17, 11, 10, 9, 8, 2, 3, 4, 5],
    (6, 7): [0, 1, 7, 6, 12, 13, 14, 15, 9, 8, 2, 3, 4, 5, 11, 10, 16, 17, 23, 22, 28, 29, 35, 41, 40, 34, 33, 39, 38, 32, 26, 27, 21, 20, 19, 18, 24, 25, 31, 30, 36, 37],
    (6, 8): [0, 6, 7, 1, 2, 3, 4, 5, 11, 10, 9, 8, 14, 15, 16, 17, 23, 22, 21, 20, 19, 13, 12, 18, 24, 30, 31, 25, 26, 27, 28, 29, 35, 34, 33, 32, 38, 39, 40, 41, 47, 46, 45, 44, 43, 37, 36, 42],
    (6, 9): [0, 6, 7, 1, 2, 3, 4, 5, 11, 10, 9, 8, 14, 15, 16, 17, 23, 22, 21, 20, 19, 13, 12, 18, 24, 25, 31, 30, 36, 37, 38, 39, 33, 32, 26, 27, 28, 29, 35, 34, 40, 41, 47, 53, 52, 46, 45, 51, 50, 44, 43, 42, 48, 49],
    (6, 10): [0, 6, 7, 1, 2, 3, 4, 5, 11, 10, 9, 8, 14, 20, 21, 15, 16, 17, 23, 22, 28, 29, 35, 34, 33, 27, 26, 32, 31, 25, 19, 13, 12, 18, 24, 30, 36, 42, 43, 37, 38, 39, 40, 41, 47, 46, 45, 44, 50, 51, 52, 53, 59, 58, 57, 56, 55, 49, 48, 54],
    (7, 1): [0, 1, 2, 3, 4, 5, 6],
    (7, 2): [0, 7, 8, 1, 2, 9, 10, 3, 4, 11, 12, 5, 6, 13],
    (7, 3): [0, 1, 8, 7, 14, 15, 16, 17, 10, 9, 2, 3, 4, 11, 18, 19, 12, 5, 6, 13, 20],
    (7, 4): [0, 1, 8, 7, 14, 21, 22, 15, 16, 23, 24, 17, 10, 9, 2, 3, 4, 11, 18, 25, 26, 19, 12, 5, 6, 13, 20, 27],
    (7, 5): [0, 1, 8, 7, 14, 15, 22, 21, 28, 29, 30, 31, 24, 23, 16, 17, 10, 9, 2, 3, 4, 11, 18, 25, 32, 33, 26, 19, 12, 5, 6, 13, 20, 27, 34],
    (7, 6): [0, 7, 8, 1, 2, 9, 16, 23, 22, 15, 14, 21, 28, 35, 36, 29, 30, 37, 38, 31, 32, 39, 40, 41, 34, 33, 26, 27, 20, 19, 18, 25, 24, 17, 10, 3, 4, 11, 12, 5, 6, 13],
    (7, 7): [0, 7, 14, 15, 8, 1, 2, 9, 16, 23, 30, 29, 22, 21, 28, 35, 42, 43, 36, 37, 44, 45, 38, 39, 46, 47, 48, 41, 40, 33, 34, 27, 26, 25, 32, 31, 24, 17, 18, 19, 20, 13, 12, 11, 10, 3, 4, 5, 6],
    (7, 8): [0, 7, 14, 21, 22, 15, 8, 1, 2, 9, 16, 23, 24, 25, 18, 17, 10, 3, 4, 11, 12, 5, 6, 13, 20, 19, 26, 27, 34, 33, 40, 41, 48, 55, 54, 47, 46, 53, 52, 45, 38, 39, 32, 31, 30, 37, 44, 51, 50, 43, 36, 29, 28, 35, 42, 49],
    (7, 9): [0, 7, 8, 1, 2, 9, 16, 23, 22, 15, 14, 21, 28, 29, 30, 31, 32, 25, 24, 17, 18, 11, 10, 3, 4, 5, 6, 13, 12, 19, 20, 27, 26, 33, 34, 41, 40, 47, 48, 55, 62, 61, 54, 53, 60, 59, 52, 45, 46, 39, 38, 37, 44, 51, 58, 57, 50, 43, 36, 35, 42, 49, 56],
    (7, 10): [0, 7, 8, 1, 2, 9, 10, 3, 4, 11, 12, 5, 6, 13, 20, 19, 26, 27, 34, 41, 40, 33, 32, 39, 38, 31, 24, 25, 18, 17, 16, 23, 30, 37, 36, 29, 22, 15, 14, 21, 28, 35, 42, 49, 50, 43, 44, 51, 52, 45, 46, 53, 54, 47, 48, 55, 62, 69, 68, 61, 60, 67, 66, 59, 58, 65, 64, 57, 56, 63],
    (8, 1): [0, 1, 2, 3, 4, 5, 6, 7],
    (8, 2): [0, 8, 9, 1, 2, 10, 11, 3, 4, 12, 13, 5, 6, 14, 15, 7],
    (8, 3): [0, 8, 16, 17, 9, 1, 2, 3, 11, 10, 18, 19, 20, 21, 13, 12, 4, 5, 6, 14, 22, 23, 15, 7],
    (8, 4): [0, 1, 9, 8, 16, 24, 25, 17, 18, 26, 27, 19, 11, 10, 2, 3, 4, 5, 13, 12, 20, 28, 29, 21, 22, 30, 31, 23, 15, 14, 6, 7],
    (8, 5): [0, 1, 9, 8, 16, 17, 25, 24, 32, 33, 34, 35, 27, 26, 18, 19, 11, 10, 2, 3, 4, 5, 13, 12, 20, 21, 29, 28, 36, 37, 38, 39, 31, 30, 22, 23, 15, 14, 6, 7],
    (8, 6): [0, 1, 9, 8, 16, 24, 32, 40, 41, 33, 25, 17, 18, 26, 34, 42, 43, 35, 27, 19, 11, 10, 2, 3, 4, 5, 13, 12, 20, 28, 36, 44, 45, 37, 29, 21, 22, 30, 38, 46, 47, 39, 31, 23, 15, 14, 6, 7],
    (8, 7): [0, 1, 2, 3, 11, 10, 9, 8, 16, 17, 18, 19, 27, 35, 34, 26, 25, 24, 32, 33, 41, 40, 48, 49, 50, 42, 43, 51, 52, 44, 45, 53, 54, 55, 47, 46, 38, 39, 31, 30, 29, 37, 36, 28, 20, 21, 22, 23, 15, 14, 13, 12, 4, 5, 6, 7],
    (8, 8): [0, 8, 9, 1, 2, 3, 11, 10, 18, 19, 27, 26, 25, 17, 16, 24, 32, 33, 41, 40, 48, 56, 57, 49, 50, 58, 59, 51, 43, 42, 34, 35, 36, 37, 45, 44, 52, 60, 61, 53, 54, 62, 63, 55, 47, 46, 38, 39, 31, 23, 22, 30, 29, 28, 20, 21, 13, 12, 4, 5, 6, 14, 15, 7],
    (8, 9): [0, 1, 9, 8, 16, 17, 25, 24, 32, 33, 34, 35, 27, 26, 18, 10, 2, 3, 11, 19, 20, 12, 4, 5, 13, 21, 22, 14, 6, 7, 15, 23, 31, 39, 38, 30, 29, 28, 36, 37, 45, 44, 52, 53, 54, 46, 47, 55, 63, 71, 70, 62, 61, 69, 68, 60, 59, 67, 66, 58, 50, 51, 43, 42, 41, 40, 48, 49, 57, 56, 64, 65],
    (8, 10): [0, 1, 9, 8, 16, 24, 32, 40, 41, 33, 25, 17, 18, 26, 34, 42, 43, 35, 27, 19, 11, 10, 2, 3, 4, 12, 13, 5, 6, 7, 15, 14, 22, 23, 31, 30, 38, 39, 47, 46, 45, 37, 29, 21, 20, 28, 36, 44, 52, 60, 61, 53, 54, 55, 63, 62, 70, 71, 79, 78, 77, 69, 68, 76, 75, 74, 66, 67, 59, 51, 50, 58, 57, 49, 48, 56, 64, 65, 73, 72],
    (9, 1): [0, 1, 2, 3, 4, 5, 6, 7, 8],
    (9, 2): [0, 9, 10, 1, 2, 11, 12, 3, 4, 13, 14, 5, 6, 15, 16, 7, 8, 17],
    (9, 3): [0, 1, 10, 9, 18, 19, 20, 21, 12, 11, 2, 3, 4, 13, 22, 23, 14, 5, 6, 15, 24, 25, 16, 7, 8, 17, 26],
    (9, 4): [0, 1, 10, 9, 18, 27, 28, 19, 20, 29, 30, 21, 12, 11, 2, 3, 4, 13, 14, 5, 6, 15, 24, 23, 22, 31, 32, 33, 34, 35, 26, 25, 16, 7, 8, 17],
    (9, 5): [0, 1, 10, 9, 18, 19, 28, 27, 36, 37, 38, 39, 30, 29, 20, 21, 12, 11, 2, 3, 4, 13, 22, 23, 14, 5, 6, 15, 24, 33, 32, 31, 40, 41, 42, 43, 44, 35, 34, 25, 26, 17, 16, 7, 8],
    (9, 6): [0, 1, 10, 9, 18, 27, 36, 45, 46, 37, 28, 19, 20, 29, 38, 47, 48, 39, 30, 21, 12, 11, 2, 3, 4, 13, 14, 5, 6, 15, 24, 33, 32, 23, 22, 31, 40, 49, 50, 41, 42, 51, 52, 53, 44, 43, 34, 35, 26, 25, 16, 7, 8, 17],
    (9, 7): [0, 1, 10, 9, 18, 19, 20, 21, 12, 11, 2, 3, 4, 13, 22, 31, 40, 39, 30, 29, 38, 37, 28, 27, 36, 45, 54, 55, 46, 47, 56, 57, 48, 49, 58, 59, 50, 51, 60, 61, 62, 53, 52, 43, 44, 35, 34, 33, 42, 41, 32, 23, 24, 25, 26, 17, 16, 15, 14, 5, 6, 7, 8],
    (9, 8): [0, 9, 10, 1, 2, 11, 12, 3, 4, 13, 22, 31, 30, 21, 20, 19, 18, 27, 28, 29, 38, 37, 36, 45, 46, 47, 56, 55, 54, 63, 64, 65, 66, 67, 58, 57, 48, 39, 40, 49, 50, 41, 42, 51, 60, 59, 68, 69, 70, 71, 62, 61, 52, 53, 44, 43, 34, 35, 26, 25, 24, 33, 32, 23, 14, 5, 6, 15, 16, 7, 8, 17],
    (9, 9): [0, 9, 18, 19, 10, 1, 2, 11, 20, 21, 12, 3, 4, 13, 22, 31, 40, 39, 30, 29, 28, 27, 36, 37, 38, 47, 46, 45, 54, 55, 56, 65, 64, 63, 72, 73, 74, 75, 76, 67, 66, 57, 48, 49, 58, 59, 50, 51, 60, 69, 68, 77, 78, 79, 80, 71, 70, 61, 62, 53, 52, 43, 44, 35, 34, 33, 42, 41, 32, 23, 14, 5, 6, 15, 24, 25, 26, 17, 16, 7, 8],
    (9, 10): [0, 9, 10, 1, 2, 11, 20, 29, 28, 19, 18, 27, 36, 45, 46, 37, 38, 47, 48, 49, 40, 39, 30, 31, 22, 21, 12, 3, 4, 13, 14, 5, 6, 15, 16, 7, 8, 17, 26, 35, 44, 53, 52, 43, 34, 25, 24, 23, 32, 33, 42, 41, 50, 51, 60, 59, 68, 69, 70, 61, 62, 71, 80, 89, 88, 79, 78, 87, 86, 77, 76, 85, 84, 75, 66, 67, 58, 57, 56, 55, 54, 63, 64, 65, 74, 83, 82, 73, 72, 81],
    (10, 1): [0, 1, 2, 3, 4, 5, 6, 7, 8, 9],
    (10, 2): [0, 10, 11, 1, 2, 12, 13, 3, 4, 14, 15, 5, 6, 16, 17, 7, 8, 18, 19, 9],
    (10, 3): [0, 1, 11, 10, 20, 21, 22, 23, 13, 12, 2, 3, 4, 5, 15, 14, 24, 25, 26, 27, 17, 16, 6, 7, 8, 18, 28, 29, 19, 9],
    (10, 4): [0, 1, 11, 10, 20, 30, 31, 21, 22, 32, 33, 23, 13, 12, 2, 3, 4, 5, 15, 14, 24, 34, 35, 25, 26, 36, 37, 27, 17, 16, 6, 7, 8, 18, 28, 38, 39, 29, 19, 9],
    (10, 5): [0, 1, 11, 10, 20, 21, 31, 30, 40, 41, 42, 43, 44, 45, 35, 34, 33, 32, 22, 23, 24, 25, 15, 14, 13, 12, 2, 3, 4, 5, 6, 7, 17, 16, 26, 27, 37, 36, 46, 47, 48, 49, 39, 38, 28, 29, 19, 18, 8, 9],
    (10, 6): [0, 1, 11, 10, 20, 30, 40, 50, 51, 41, 31, 21, 22, 23, 33, 32, 42, 52, 53, 43, 44, 54, 55, 45, 35, 34, 24, 25, 15, 14, 13, 12, 2, 3, 4, 5, 6, 7, 17, 16, 26, 36, 46, 56, 57, 47, 37, 27, 28, 38, 48, 58, 59, 49, 39, 29, 19, 18, 8, 9],
    (10, 7): [0, 1, 11, 10, 20, 21, 31, 30, 40, 41, 51, 50, 60, 61, 62, 52, 53, 63, 64, 65, 55, 54, 44, 45, 35, 34, 33, 43, 42, 32, 22, 23, 24, 25, 15, 14, 13, 12, 2, 3, 4, 5, 6, 7, 17, 16, 26, 27, 37, 36, 46, 47, 57, 56, 66, 67, 68, 69, 59, 58, 48, 49, 39, 38, 28, 29, 19, 18, 8, 9],
    (10, 8): [0, 10, 11, 1, 2, 3, 4, 5, 15, 14, 13, 12, 22, 23, 24, 25, 35, 34, 33, 32, 31, 21, 20, 30, 40, 41, 51, 50, 60, 70, 71, 61, 62, 72, 73, 63, 64, 74, 75, 65, 55, 54, 53, 52, 42, 43, 44, 45, 46, 47, 57, 56, 66, 76, 77, 67, 68, 78, 79, 69, 59, 58, 48, 49, 39, 29, 28, 38, 37, 36, 26, 27, 17, 16, 6, 7, 8, 18, 19, 9],
    (10, 9): [0, 1, 11, 10, 20, 21, 22, 23, 13, 12, 2, 3, 4, 5, 15, 14, 24, 25, 35, 45, 44, 34, 33, 43, 42, 32, 31, 30, 40, 41, 51, 50, 60, 61, 71, 70, 80, 81, 82, 83, 84, 85, 75, 74, 73, 72, 62, 52, 53, 63, 64, 54, 55, 65, 66, 56, 57, 67, 77, 76, 86, 87, 88, 89, 79, 78, 68, 69, 59, 58, 48, 49, 39, 38, 37, 47, 46, 36, 26, 16, 6, 7, 17, 27, 28, 29, 19, 18, 8, 9],
    (10, 10): [0, 10, 11, 1, 2, 3, 4, 5, 15, 14, 13, 12, 22, 32, 33, 23, 24, 25, 35, 34, 44, 45, 55, 54, 53, 43, 42, 52, 51, 41, 31, 21, 20, 30, 40, 50, 60, 61, 71, 70, 80, 90, 91, 81, 82, 92, 93, 83, 84, 94, 95, 85, 75, 74, 73, 72, 62, 63, 64, 65, 66, 67, 77, 76, 86, 96, 97, 87, 88, 98, 99, 89, 79, 78, 68, 69, 59, 49, 39, 29, 28, 38, 48, 58, 57, 56, 46, 47, 37, 36, 26, 27, 17, 16, 6, 7, 8, 18, 19, 9],
}


_pin = []


def pinned():
    """Is the tabulated release of the dependency the one the program is built with?"""
    if not _pin:
        try:
            s = open(os.path.join(dump.REPO, 'Cargo.lock')).read()
            _pin.append('name = "zhang_hilbert"\nversion = "%s"' % VERSION in s)
        except OSError:
            _pin.append(False)
    return _pin[0]


def at(w, h, k):
    """The k-th position visited in a w x h rectangle, None if not tabulated."""
    o = ORDER.get((w, h))
    if o is None or not 0 <= k < len(o) or not pinned():
        return None
    return o[k] % w, o[k] // w
