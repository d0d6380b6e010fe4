from concurrent.futures import ThreadPoolExecutor
